"""Regenerates properties.jsonl and MANIFEST.json (python3 meta.py)."""
import json
import os

P = []


def prop(id, title, statement, over, quant, why, files, mech, note, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  note=note, claimed=claimed))


I = ['inputs']
IH = ['inputs', 'histories']
IC = ['inputs', 'configurations']
IF = ['inputs', 'fault_sequences']
TXT = ['impactutils/textformat/text.py']

prop('C01', 'Roman numerals are canonical and exact',
     'Converting an integer between 1 and 3999 to a Roman numeral gives the unique canonical numeral for that value. '
     'Every integer below 1 or above 3999 is rejected with a ValueError.',
     I, 'every integer', 'Tests convert a few integers; the claim is over all of them.',
     TXT, [('recursive denomination expansion', 'text.dec_to_roman')],
     'Integer symbolic over the whole range; no bound below 4000, unbounded rejection range.')
prop('C02', 'Digit grouping never changes the number',
     'Inserting thousands separators into an integer, decimal number or digit string puts the separator between every '
     'group of three digits of the integer part counted from the decimal point, and nowhere else: sign, digits and '
     'fraction are unchanged. It terminates for every separator, the empty one included.',
     I, 'every number and separator within the bounds', 'Tests group three values with the default separator.',
     TXT, [('regular-expression fixpoint', 'text.commify')],
     'Bounds: |n| <= 10^18, separators of up to 2 printable characters, decimals of up to 4 places, digit strings of '
     'up to 10+6 digits; larger in the thorough tier.')
prop('C03', 'Rounding to a multiple is the nearest, lower or upper multiple',
     'Rounding a value to the nearest multiple of a step gives a multiple of the step at most half a step away; the '
     'floor variant gives the greatest multiple not above it and the ceiling variant the smallest not below it. For '
     'integer steps the result is an integer; steps below one give decimal multiples.',
     I, 'every value within the bounds, a table of steps', 'Tests round five values.',
     TXT, [('scaled rounding', 'text.round_to_nearest, floor_to_nearest, ceil_to_nearest')],
     'Bounds: |v| <= 10^12 for integers and 10^9 for reals; 16 integer and 8 fractional steps; real arithmetic with '
     'tolerance 1e-6 for fractional steps.')
prop('C04', 'Abbreviated populations and dollar amounts are faithful',
     'An abbreviated population or dollar amount, read back with its unit, is within the rounding error its form '
     'allows of the exact value (nearest thousand, or the requested number of significant digits), uses the unit that '
     'fits the magnitude, and is grouped in thousands where a count is printed. Rounding a number to N significant '
     'digits gives a number with at most N of them, as near as any.',
     I, 'every amount within the bounds, 1..7 significant digits, short and long forms',
     'Tests check eight amounts.',
     TXT, [('unit selection and significant-digit formatting', 'text.pop_round, pop_round_short, dollar_round, '
            'set_num_precision')],
     'Bounds: amounts up to 10^13; floats modelled as reals with correctly rounded decimal rendering.')
prop('C05', 'Elapsed time is an exact decomposition',
     'The elapsed time between two instants is split into weeks, days, hours, minutes and seconds that add up to the '
     'whole seconds between them, each part in its canonical range; an end before the start is rejected. The elapsed '
     'time as text names the largest non-zero unit and the next smaller one (seconds alone below a minute), with '
     'correct counts and plurals.',
     I, 'every ordered pair of instants', 'Tests check a dozen pairs.',
     ['impactutils/time/timeutils.py'], [('successive remainders', 'timeutils.ElapsedTime')],
     'Instants symbolic over years 1..9999 at microsecond resolution; text form for spans up to 100 weeks (quick).')
prop('C06', 'Dates before 1900 format as the calendar says',
     'Formatting a date before 1900 gives, for every supported directive, what the proleptic Gregorian calendar '
     'prescribes: the true year (four digits), month, day, time of day, day of year, week number and the weekday of that date; '
     'escaped percent signs and literal text are copied. Locale-dependent directives are refused rather than '
     'misformatted.',
     I, 'every date and time in years 1..1899 and each directive', 'Tests format a handful of dates.',
     ['impactutils/time/ancient_time.py'], [('28-year calendar cycle substitution', 'ancient_time.HistoricTime.strftime')],
     'Dates symbolic over years 1..9999; the base datetime class is modelled and every path witness replayed.')
prop('C07', 'Time zone lookup returns the zone of the cell or polygon',
     'Looking up the time zone of a coordinate in a raster returns the zone of the cell selected by the requested '
     'rounding method, clamped to the raster, also when the raster crosses the antimeridian; an unknown method is '
     'rejected. Local/UTC conversion uses that zone\'s offset at the instant asked for, in both directions, and the '
     'polygon lookup returns the zone containing the point, or else the nautical zone of its longitude.',
     I, 'every latitude and longitude, rounding methods, three raster layouts', 'Tests look up a few cities.',
     ['impactutils/time/timeutils.py'],
     [('raster index arithmetic', 'timeutils.TimeConversion'), ('polygon lookup and fallback', 'timeutils.LocalTime')],
     'Rasters are 3x4 cells; polygons are rectangles; two instants. Shapefile reading and projection are outside.')
prop('C08', 'Compass directions name the nearest compass point',
     'The compass direction of an azimuth, or of the great-circle azimuth between two points, is the name of the '
     'nearest compass point at the requested resolution (4, 8 or 16 points), in the requested short or long form. '
     'Unknown resolutions and formats are rejected.',
     I, 'every azimuth in [-360,360), all resolutions and formats', 'Tests sample a few azimuths.',
     ['impactutils/mapping/compass.py'], [('sector index', 'compass.get_compass_dir_azimuth, get_compass_dir')],
     'Azimuth symbolic real; ties accept either neighbour.')
prop('C09', 'Running a command reports its outcome faithfully',
     'Running an external command returns success exactly when its exit status is zero, together with everything it '
     'wrote on standard output and on standard error, unmixed and unchanged; the command is passed to the shell as '
     'given.',
     I, 'every exit status, output and command text within the bounds', 'Tests run two commands.',
     ['impactutils/io/cmd.py'], [('process wrapper', 'cmd.get_command_output')],
     'Process library modelled by contract; a replay-only harness runs real shells.')
prop('C10', 'The HDF container is a map per kind of item',
     'A container remembers, per kind of item (dictionary, list, string, array, data frame), exactly the '
     'value stored under each name and not dropped since (a second store under a taken name is refused): reading returns an equal value, listing returns exactly the names '
     'present, dropping removes only that one, and items of different kinds never interfere. Reading or dropping an '
     'absent name is an error, and everything survives closing and reloading the file.',
     IH, 'every history of operations within the bounds, symbolic names and payloads',
     'Tests store each kind once and read it back.',
     ['impactutils/io/container.py'], [('group layout and serialisation', 'container.HDFContainer')],
     'Histories of up to 3 (4) operations; h5py and json modelled, every witness replayed on the real libraries; data '
     'frames concrete.')
prop('C11', 'ShakeMap containers keep every record and IMT separately',
     'Items stored under a group path and name are returned equal, listed exactly, and never affect another group, '
     'name or kind. Single records (configuration, rupture, stations, metadata, version history) hold the last '
     'accepted value even after a rejected update and after reloading; intensity data are kept per measure and '
     'component, and the first data stored fix whether the container holds grids or points, mixtures being rejected '
     'and the requested compression applied.',
     IH, 'every history of operations within the bounds', 'Tests exercise one history per container.',
     ['impactutils/io/smcontainers.py', 'impactutils/io/container.py'],
     [('group layout', 'smcontainers.GridHDFContainer, ShakeMapContainer, ShakeMapInputContainer, '
       'ShakeMapOutputContainer')],
     'Histories of 2-3 operations; h5py and json modelled, every witness replayed on the real libraries.')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'meta2.py')).read()) \
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'meta2.py')) else None


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
    checks, na = [], []
    for p in P:
        if not p['claimed']:
            na.append(dict(property=p['id'], reason=p['note']))
            continue
        assert os.path.exists(os.path.join(here, 'props', p['id'] + '.py')), p['id']
        checks.append(dict(property=p['id'], quick_cmd=f"./run.sh check {p['id']} quick",
                           thorough_cmd=f"./run.sh check {p['id']} thorough",
                           evidence_file=f"evidence/{p['id']}.json",
                           technique='solver-based symbolic execution of the real Python code (z3), counterexamples '
                                     'replayed on the plain code',
                           level='model_checking', level_note=p['note']))
    man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']


main()


def design():
    import glob
    here = os.path.dirname(os.path.abspath(__file__))
    t = open(os.path.join(here, 'tools', 'DESIGN.in.md')).read()
    out = []
    for p in P:
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n" +
                   (f"Anchored in {', '.join(w for n, w in p['mech'])}. " if p['mech'] else '') +
                   ('Decided by symbolic execution. ' if p['claimed'] else 'NOT APPLICABLE: ') + p['note'] + '\n')
    t = t.replace('@@PROPS@@', '\n'.join(out))
    rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    res = {}
    rp = os.path.join(here, 'tools', 'seed_results.json')
    if os.path.exists(rp):
        res = json.load(open(rp))
    for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        i = os.path.basename(os.path.dirname(m))
        rows.append(f"| {i} | {d['property']} | {d['needs']} | {res.get(i, '?')} |")
    open(os.path.join(here, 'DESIGN.md'), 'w').write(t.replace('@@SEEDS@@', '\n'.join(rows)))


design()
