T = "the name functions have no tests; the laws quantify over all texts and all coincidences of their characters"
F = ["coral/names.py"]
N = "Characters are symbolic (decided for every pattern of equal and different characters). "
PROPS = [
 dict(id="N01", title="The edit distance is the least number of single edits",
  statement="damlev is the least number of insertions, deletions, replacements and exchanges of neighbours turning one text into the other (each part edited once): symmetric, zero exactly for equal texts, at least the difference and at most the maximum of the lengths. One edit anywhere is distance 1.",
  forall="all pairs of texts of up to 3x3 (thorough 4x4, 5x2) characters; all single edits of texts of up to 9 characters, some double ones of 60 (150)",
  why=T, files=F, mech=[("distance", "damlev")], note=N + "Texts of the stated lengths."),
 dict(id="N02", title="Names are mapped to their nearest counterparts, best first",
  statement="The relative error of two texts is their edit distance over their mean length, zero for a text against itself (empty ones included). A mapping gives every key a value of the least error and the matching score, in order of descending score.",
  forall="all pairs of texts of up to 3x3 (thorough 4x4) characters; mappings of up to 2x2 (thorough 3x1, 1x3) texts of 1-2 letters, and of two texts of about 20 or 30 characters whose errors are close",
  why=T, files=F, mech=[("error", "strerr"), ("mapping", "mapping")], note=N + "Texts of the stated lengths; mappings over small alphabets."),
 dict(id="N03", title="Jaro similarities are normalised and follow their definition",
  statement="Jaro and Jaro-Winkler similarities lie in [0, 1] and are 1 exactly for equal texts; texts are similar at all exactly when they share a character within reach (half the longer length). Replacing a character or exchanging neighbours lowers the similarity as defined, and a common prefix of up to four characters closes the gap to 1 by a tenth each.",
  forall="all pairs of texts of up to 3x3 and 4x4 (thorough 5x3) characters; all single replacements and exchanges in texts of 4-6 different characters; all texts of up to 6 characters (thorough 7) of two letters",
  why=T, files=F, mech=[("Jaro", "jaro"), ("prefix bonus", "jaro_winkler")], note=N + "Texts of the stated lengths; two empty texts are left out."),
 dict(id="N04", title="Removing accents changes exactly the accented letters",
  statement="ascii replaces every accented vowel (acute, grave, tilde, circumflex, diaeresis) and c-cedilla by its base letter, keeping case and length, changes no other character and leaves nothing to change.",
  forall="all texts of up to 2 (thorough 3) characters of the basic multilingual plane from the space upwards",
  why=T, files=F, mech=[("table", "ascii")], note="Characters are symbolic code points."),
 dict(id="N05", title="Abbreviations are unique, short and taken from the name",
  statement="abbreviations gives every name letters of it, in order, no more than asked for; short names stand for themselves and no two names that differ in more than case and accents get the same abbreviation. As long as no abbreviation is taken, it has the initials of the words and then the letters that the fewest names have; words to leave out are left out. It fails only when a name has too few different abbreviations left.",
  forall="all sets of 2 names of up to 4 characters, and of 3 names of up to 2 (thorough 3), over two letters and the space, for lengths 1-3; names of 1 to 3 words of up to 3 letters next to a longer name, with a word to leave out between the words, with an accent or without, or none",
  why=T, files=F, mech=[("search", "abbreviations")], note="Names are enumerated by the solver over two letters and single inner spaces."),
]
