#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []        # claimed
NA = []       # (id, ..., reason)


def p(id, title, statement, text, why, files, mech, over=("inputs",), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, technique=technique, note=note))


def na(id, title, statement, text, why, files, mech, reason, over=("inputs",)):
    NA.append((dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech), reason))


VG = "value-graph equivalence (global value numbering over MIR, random interpretation of unsettled leaves) with a reference definition"
DS = "abstract interpretation in the powerset-of-days domain, compared with the published rules"
NVG = ("Sound for every input up to the trusted base: transfer functions for std/chrono/num/statrs items in sa/models.py, real-number semantics for floats "
       "(rounding and re-association are not distinguished), and the reference definition itself. Where structural equality is not settled, the two graphs are evaluated at random valuations over a finite field (random interpretation); a difference is a violation, agreement without a structural proof is reported as UNDECIDED and is no alarm.")
NDS = "Exhaustive over every civil day 1901-01-01..2199-12-31 and every market variant; the oracle is sa/calref.py (rules) and spec/holidays.json (announced closures)."

CAL = "src/time/calendars"
DAYS = "every date 1901-2199 and every market variant"
WHYCAL = "The existing tests pin one calendar year per country (mostly 2023) for the default market; the other 298 years, the other markets and the rules that only bite in other years are never exercised."

p("C01", "Weekends are never business days",
  "For every holiday calendar and market, no Saturday or Sunday is a business day, except the working weekends announced for the Russian exchange. The weekend test itself is true exactly on Saturday and Sunday, and no calendar replaces the shared business-day arithmetic.",
  DAYS + ", every calendar", WHYCAL, [CAL + ".rs", CAL], [("weekend test", CAL + ".rs is_weekend"), ("each is_business_day", CAL + "/*.rs")], technique=DS, note=NDS)
p("C02", "Easter tables agree with the computus",
  "For every year 1901 to 2199 the day number used for Western Easter Monday is the one of the Gregorian computus, and the one used for Orthodox Easter Monday is that of the Julian computus on the Gregorian calendar.",
  "all 299 years of both tables", "Tests reach Easter only through one calendar year per country; a wrong entry for another year is invisible.",
  [CAL + ".rs"], [("Easter tables", CAL + ".rs easter_monday, orthodox_easter_monday")], technique="constant evaluation of the table lookups against the computus", note="Complete over the finite table; assumes the computus in sa/calref.py.")
p("C03", "A joint calendar is the union of its members' holidays",
  "A joint calendar treats a day as a business day exactly when every member calendar does, for any list of members and any day; an empty list is always open.",
  "every list of calendars, every date", "One test samples two calendars for a year.", [CAL + "/jointcalendar.rs"], [("member loop", CAL + "/jointcalendar.rs is_business_day")], technique=VG, note=NVG)


def country(id, label, cals, extra=""):
    p(id, "Holiday rules: " + label,
      "For every market of the calendars of %s, the days that are not business days are exactly weekends, the fixed-date, weekday-of-month and Easter-based holidays of that market with their substitution rules and start/end years, and the announced special closures.%s" % (", ".join(cals), extra),
      DAYS, WHYCAL, [CAL + "/%s.rs" % c.replace(" ", "").lower() for c in cals], [("closed-day predicate", CAL + "/%s.rs is_business_day" % c.replace(" ", "").lower()) for c in cals], technique=DS, note=NDS)


country("C05", "United States markets", ["United States"])
country("C06", "United Kingdom and Commonwealth", ["United Kingdom", "Canada", "Australia", "New Zealand", "South Africa", "Botswana"])
country("C07", "western euro area, Switzerland and TARGET", ["Austria", "Germany", "France", "Italy", "Switzerland", "Target"])
country("C08", "Nordic countries", ["Denmark", "Finland", "Iceland", "Norway", "Sweden"])
country("C09", "Central and Eastern Europe", ["Czech Republic", "Hungary", "Poland", "Romania", "Russia", "Slovakia", "Ukraine"])
country("C10", "Latin America", ["Argentina", "Brazil", "Chile", "Mexico"])
country("C11", "East Asia", ["Japan", "China", "Hong Kong", "South Korea", "Taiwan"])
country("C12", "South Asia, Middle East, weekends only", ["India", "Indonesia", "Israel", "Singapore", "Thailand", "Turkey", "Weekends Only"])

WHYADJ = "Tests check a handful of dates on one calendar; the statement is about any calendar, date and convention."
p("C13", "Business-day adjustment follows the convention",
  "Adjusting a date returns the date itself when unadjusted; the first open day on or after (following) or on or before (preceding) it; the modified variants fall back to the opposite direction when the month (or, for half-month, the 15th) would be crossed; nearest returns the closest open day, the later one on a tie.",
  "every calendar, date and convention", WHYADJ, [CAL + ".rs"], [("adjust", CAL + ".rs adjust")], technique=VG, note=NVG)
p("C14", "Advancing a date counts business days",
  "Advancing by n days moves over exactly n open days in the direction of n's sign (zero days adjusts by the convention); advancing by weeks, months, years or a named tenor moves the calendar date and then adjusts it; with the end-of-month flag a month or year move lands on the last open day of the month. Calendar-range overflow is an error.",
  "every calendar, date, period, convention and flag", WHYADJ, [CAL + ".rs"], [("advance", CAL + ".rs advance")], technique=VG, note=NVG)
p("C15", "Business days between two dates are counted exactly",
  "The count is the number of open days in the interval with the first included and the last excluded unless requested otherwise, for any calendar, and swapping the two dates negates it.",
  "every calendar, pair of dates and pair of flags", WHYADJ, [CAL + ".rs"], [("count", CAL + ".rs business_days_between")], technique=VG, note=NVG)
p("C16", "Month ends and holidays are consistent with business days",
  "The last day of a month is the civil month end; the end of month is the last open day of that month; a day is a holiday exactly when it is not a business day.",
  "every calendar and date", WHYADJ, [CAL + ".rs"], [("month ends", CAL + ".rs last_day_of_month, end_of_month, is_holiday")], technique=VG, note=NVG)

DC = "src/time/daycounters"
WHYDC = "Unit tests sample a few date pairs per convention; end-of-February, leap-year, reversed and multi-year combinations are not sampled."
p("T01", "Actual/N day counts",
  "Actual/360, /364, /366 and /365 (Fixed, Canadian treated as fixed) count the civil days between the dates and divide by N; the no-leap variant counts with every 29 February removed, on a 365-day year.",
  "every ordered or reversed pair of dates", WHYDC, [DC + "/actual360.rs", DC + "/actual364.rs", DC + "/actual366.rs", DC + "/actual365fixed.rs"], [("day counts", DC + "/actual365fixed.rs")], technique=VG, note=NVG)
p("T02", "30/360 family and 30/365",
  "Each 30/360 variant (USA, European, Italian, ISMA, ISDA, German, NASD) applies exactly its published end-of-month adjustments to the two day numbers before counting 360 per year and 30 per month, and the year fraction is that count over 360; 30/365 uses unadjusted day numbers over 365.",
  "every pair of dates, variant and termination date", WHYDC, [DC + "/thirty360.rs", DC + "/thirty365.rs"], [("variants", DC + "/thirty360.rs day_count")], technique=VG, note=NVG)
p("T03", "Actual/Actual year fractions",
  "The ISDA rule splits the period by calendar years and divides each part by its own year length; the Euro (AFB) rule counts whole years back from the end and divides the stub by 366 when it contains a 29 February; equal dates give zero and reversed dates the negative.",
  "every pair of dates and market", WHYDC, [DC + "/actualactual.rs"], [("rules", DC + "/actualactual.rs year_fraction")], technique=VG, note=NVG)
p("T04", "Business/252 counts business days of its calendar",
  "The day count is the number of business days of the chosen calendar from the first date to before the second, whatever months and years lie between, and the year fraction is that count over 252.",
  "every calendar and pair of dates", WHYDC, [DC + "/business252.rs"], [("month loop", DC + "/business252.rs")], technique=VG, note=NVG)
p("T05", "Date and period arithmetic",
  "Adding or subtracting a period moves by whole days, weeks, months (clipped to month end) or years, spot and tomorrow-next tenors move by their conventional days, a result outside the representable calendar is an error and never a panic, and an integer multiple of a period scales its count.",
  "every date and period, including extreme counts", "Tests cover ordinary periods only, not overflow, negative counts or month-end clipping in general.", ["src/time/period.rs"], [("operators", "src/time/period.rs Add, Sub, Mul")], technique=VG, note=NVG)
p("T06", "Settlement and near dates of tenors",
  "The settlement date of a tenor starts at the trade date for overnight, the next day for tomorrow-next and the spot lag (two days unless given) otherwise, adds the tenor, is capped at the last open day of its month and rolls forward to an open day. The near date is that starting date rolled forward for overnight, tomorrow-next and spot-next, and absent for every other tenor.",
  "every calendar, date, tenor and lag", "Tests sample one calendar and a few tenors.", ["src/time/period.rs"], [("tenor dates", "src/time/period.rs settlement_date, near_date")], technique=VG, note=NVG)
p("T07", "IMM dates and codes",
  "An IMM date is the third Wednesday of the month, of a quarterly month when restricted to the main cycle; the next date is the first such date strictly after the reference date; code and date are inverse to each other relative to the reference date, and malformed or unknown codes are rejected without a panic.",
  "every date, reference date and string", "Tests sample a few contracts.", ["src/time/imm.rs"], [("codes", "src/time/imm.rs")], technique=VG, note=NVG)
p("T08", "Frequency and convention tables",
  "Each payment frequency has its own number of times per year, name, period and codes, and each business-day convention its own name and codes; a code is read back as the value it names, and an unknown code gives none.",
  "every enumeration value and every string", "Tests check some codes; an exchanged pair of the others goes unnoticed.", ["src/time/frequency.rs", "src/time/businessdayconvention.rs"], [("tables", "src/time/frequency.rs Frequency, from_code, period, name")], technique=VG, note=NVG)
p("T09", "Day counts are antisymmetric and additive",
  "For the Actual family, Actual/Actual, 30/365 and the symmetric 30/360 variants, exchanging the two dates negates the count and the year fraction; for the Actual/N family, 30/365 and the symmetric 30/360 variants, the counts of two adjacent periods add up to that of the whole.",
  "every pair and triple of dates", "A relation over all pairs and triples of dates; tests check values at points.", [DC], [("day counters", DC + "/*.rs")], technique="self-composition over extracted value graphs", note=NVG)
p("T10", "Year fractions can be turned back into a date",
  "The date reached from a start date and a year fraction is the 365.25-day estimate corrected once by the day counter's own remaining fraction, for every day counter; an out-of-range result is an error.",
  "every day counter, date and fraction", "Tests sample one day counter.", ["src/time/daycounters.rs"], [("inverse", "src/time/daycounters.rs year_fraction_to_date")], technique=VG, note=NVG)

exec(open(os.path.join(V, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta2.py")) else None
exec(open(os.path.join(V, "tools", "meta3.py")).read())
exec(open(os.path.join(V, "tools", "meta4.py")).read())


def row(d):
    return {"id": d["id"], "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["text"]}, "why_tests_cant": d["why"],
            "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]]}}


def main():
    sys.path.insert(0, os.path.join(V, "sa"))
    import check, props
    allp = sorted(P + [d for d, _ in NA], key=lambda d: d["id"])
    ids = [d["id"] for d in allp]
    assert len(set(ids)) == len(ids), "duplicate ids"
    for d in allp:
        assert len(d["title"]) <= 80, d["id"]
    have = set(props.PROPS)
    assert have == {d["id"] for d in P}, have ^ {d["id"] for d in P}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in allp:
            f.write(json.dumps(row(d)) + "\n")
    m = {"version": 1, "setup_cmd": "python3 sa/dump.py", "checks": [], "not_applicable": [],
         "notes": "One engine (sa/), one MIR export per source tree, one entry point: sa/check.py. No hooks in /repo: private fields are made visible to the reference modules by the export driver, in a scratch copy. Known findings: known_findings.json."}
    for d in sorted(P, key=lambda d: d["id"]):
        m["checks"].append({"property": d["id"], "quick_cmd": "python3 sa/check.py %s --tier quick" % d["id"], "thorough_cmd": "python3 sa/check.py %s --tier thorough" % d["id"],
                            "evidence_file": "evidence/%s.json" % d["id"], "technique": d["technique"], "level": props.PROPS[d["id"]]["level"], "level_note": d["note"]})
    for d, r in NA:
        m["not_applicable"].append({"property": d["id"], "reason": r})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "claimed", len(NA), "not applicable")


main()
