T = "tables have no tests; the guarantees quantify over all values, orders of columns and key coincidences"
F = ["coral/table.py"]
PROPS = [
 dict(id="T01", title="Tables survive being written to and read from delimited text",
  statement="A table of texts (without the separator, the comment mark, line breaks or blanks at their ends) is read back from a file with the same columns, rows and values. Columns written or read by a chosen list of keys keep their own values whatever the order of the keys; comments and blank lines are skipped and files without rows read as empty tables.",
  forall="all texts of up to 2 (thorough 4) characters over an alphabet with blanks, quotes, other separators and non-ASCII letters; 4 separators; up to 2x2 cells (thorough 4); all selections and orders of 2-3 (thorough 4) keys; all files of 3 (thorough 4) lines of 7 kinds",
  why=T, files=F, mech=[("writer", "writefile"), ("reader", "readfile")], note="Symbolic texts of the stated lengths and alphabets; encodings are UTF-8 as in the code; rows of one empty value look like blank lines and are left out."),
 dict(id="T02", title="Joining tables attaches to every row its first match",
  statement="A join has exactly the rows of the left table, in order, each carrying its own values and those of the first right row that agrees with it on all pivot columns (by default the shared ones); columns that neither provides are empty. The columns are the ones asked for, by default those of both tables.",
  forall="all integer tables of 1-2 (thorough 3) rows on each side, sharing one or two columns, with three choices of pivots and of columns",
  why=T, files=F, mech=[("join", "join")], note="Up to 2 (thorough 3) rows per table; cell values symbolic, column sets enumerated."),
 dict(id="T03", title="Looking up, indexing, adding and removing columns touch nothing else",
  statement="getone and getall find the first and exactly the rows with the queried value, in order; indexby gives for every value of a column the other columns of its last row; addkey and delkeys change exactly the columns named, computing new ones from their own row, and leave the table itself alone.",
  forall="all tables of 1-3 (thorough 4) rows of symbolic values and all queries; column names that contain one another",
  why=T, files=F, mech=[("lookup", "getone, getall"), ("index", "indexby"), ("columns", "addkey, delkeys")], note="Up to 3 (thorough 4) rows; indexed values from a range of three."),
 dict(id="T04", title="Printed tables are aligned and complete",
  statement="A table is printed as a header, a rule and one line per row, every value left-aligned under its column, each column as wide as its widest value or name, in the order of the keys asked for.",
  forall="all tables of up to 2x2 (thorough 3x2) texts of lengths 0, 1 and 8, and of 270 (3000) rows with one such row",
  why=T, files=F, mech=[("printing", "pprint")], note="Symbolic characters, enumerated lengths."),
]
