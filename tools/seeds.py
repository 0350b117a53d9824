"""Planted bugs (see mkseed.py)."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


T = 'impactutils/textformat/text.py'
seed('c02-negative', 'C02', [(T, r"re.compile(r'^(-?\d+)(\d{3})')", r"re.compile(r'^(\d+)(\d{3})')")],
     'a negative number of four or more digits', 'negative numbers are not grouped',
     """
from impactutils.textformat.text import commify
assert commify(-1234567) == '-1,234,567', commify(-1234567)
""")
seed('c03-floor-negative', 'C03', [(T, "value = int(floor(float(value) / floor_value) * floor_value)\n    return value",
                                   "value = int(float(value) / floor_value) * floor_value\n    return value")],
     'a negative value that is not a multiple of the step', 'floor of a negative value rounds towards zero',
     '''
from impactutils.textformat.text import floor_to_nearest as f
assert f(-1500, 1000) == -2000, f(-1500, 1000)
''')
seed('c05-round-second', 'C05', [('impactutils/time/timeutils.py', 'nseconds = td.seconds + td.days * 86400',
                                 'nseconds = int(round(td.total_seconds()))')],
     'instants with microseconds whose difference has a fraction above one half', 'the elapsed seconds are one too many',
     """
import datetime
from impactutils.time.timeutils import ElapsedTime
t = datetime.datetime(2000, 1, 1)
r = ElapsedTime().getTimeElapsed(t, t + datetime.timedelta(seconds=59, microseconds=700000))
assert r['seconds'] == 59 and r['minutes'] == 0, r
""")
seed('c06-cycle', 'C06', [('impactutils/time/ancient_time.py', 'factor = (1900 - year - 1) // 400 + 1\n        future_year = year + factor * 400',
                           'factor = (1900 - year - 1) // 200 + 1\n        future_year = year + factor * 200')],
     'a year before 1900 in the later part of a 400-year cycle, with a weekday or leap-day dependent directive',
     'the substituted year has another calendar',
     '''
import datetime
from impactutils.time.ancient_time import HistoricTime as H
N = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
for y in range(100, 1900, 7):
    assert H(y, 3, 1).strftime('%A') == N[datetime.date(y, 3, 1).weekday()], y
''')
seed('c08-wrap', 'C08', [('impactutils/mapping/compass.py', "'West', 'West-northwest', 'Northwest', 'North-northwest',\n                              'North']",
                          "'West', 'West-northwest', 'Northwest', 'North-northwest',\n                              'North-northwest']")],
     '16-point resolution, long form, azimuth above 348.75 degrees', 'azimuths just west of north are called north-northwest',
     '''
from impactutils.mapping.compass import get_compass_dir_azimuth as g
r = g(355, resolution='meteorological', format='long')
assert r == 'North', r
''')
seed('c10-drop-list', 'C10', [('impactutils/io/container.py', "        mlist = f'{name}'\n        list_group = self._hdfobj[GROUPS['list']]\n        if mlist not in list_group:\n            raise LookupError(f'list {name} not in {self._hdfobj.filename}')\n        del list_group[mlist]",
                               "        mlist = f'{name}'\n        list_group = self._hdfobj[GROUPS['list']]\n        if mlist not in list_group:\n            raise LookupError(f'list {name} not in {self._hdfobj.filename}')\n        for key in list(list_group.keys()):\n            if key.startswith(mlist):\n                del list_group[key]")],
     'two lists whose names share a prefix, and dropping the shorter one', 'dropping one list removes others',
     '''
import sys, os
from impactutils.io.container import HDFContainer
c = HDFContainer.create(os.path.join(sys.argv[1], 'x.hdf'))
c.setList('a', [1]); c.setList('ab', [2])
c.dropList('a')
assert c.getLists() == ['ab'], c.getLists()
''')
