T = "the progress meter has no tests; the guarantees quantify over all clocks, intervals and ways of iterating"
F = ["coral/tqdm.py"]
PROPS = [
 dict(id="Q01", title="A progress meter hands out exactly its items, one when asked for",
  statement="Iterating through tqdm yields the items of the iterable unchanged and in order, takes each from it only when asked for, ends with it and passes on its errors, whatever the options, the total (known, unknown or wrong) and the time taken. trange is tqdm over a range.",
  forall="all integer items and times of iterables of up to 2 (thorough 3) items, sized or not, failing at any point, with all options; all ranges with bounds in -3..3",
  why=T, files=F, mech=[("generator", "tqdm"), ("range", "trange")], note="Clock readings are symbolic; iterables of up to 2 (thorough 3) items."),
 dict(id="Q02", title="The meter leaves its final state on the screen, or nothing",
  statement="When the iteration ends, the line shown on a terminal is the description and the meter of the final count and time, with no remains of earlier states and a line break after it; with leave=False the line is blank and the cursor back at its start, and nothing is written to any other file. In between the meter is updated exactly when both the minimum time and the minimum number of items have passed since the last update (half a second and one item unless told otherwise), and shows the count and the time passed.",
  forall="all item times in 0..4000 s for up to 2 (thorough 3) items with known, unknown, wrong and zero totals, and for 30 items of given times; all intervals 0..9 and counts for up to 4 (thorough 5) items",
  why=T, files=F, mech=[("updates", "tqdm"), ("overwriting", "StatusPrinter.print_status")], note="Writes are played on a model of a terminal line; clock readings are symbolic integers."),
 dict(id="Q03", title="Meters show the true count, fraction, rate and times",
  statement="A meter shows the count and, with a usable total, the total, the percentage and a ten-cell bar of the fraction done (rounded down, full exactly at the end), and the remaining time at the present rate. Elapsed and remaining times are whole seconds as [h:]mm:ss with two-digit fields below 60, the rate is the count per second with two decimals, and nothing undefined is shown before time has passed.",
  forall="all counts 0..total+50 for 7 (thorough 12) totals; all real times up to 25 hours for 9 combinations of count and total; all counts up to 99999 for 6 (thorough 12) times",
  why=T, files=F, mech=[("meter", "format_meter"), ("durations", "format_interval")], note="Exact real arithmetic; percentages and bars may be off by the rounding of one float division."),
]
