# Tables of records in CSV files
C = 'csvmanager'

TAB = r'''
import openquake.commonlib.csvmanager as cm
rs = cm.records
def rows(man, rt=rs.Occupancy):
    return [list(r) for r in man.read(rt)]
def write(archive, prefix, recs, **kw):
    with cm.CSVManager(archive, prefix, **kw) as man:
        for rec in recs:
            man.write(rec)
    return archive
def mem(*items):
    return cm.MemArchive(list(items))
O = rs.Occupancy
'''

B('C32-shared-writers', 'C32', C, [
    ("    convertertype = converter.Converter\n\n    def __init__(self, archive, prefix='', has_header=True):\n",
     "    convertertype = converter.Converter\n    rt2writer = {}\n    rt2file = {}\n\n"
     "    def __init__(self, archive, prefix='', has_header=True):\n"),
    ("        self.has_header = has_header\n        self.rt2writer = {}\n        self.rt2file = {}\n",
     "        self.has_header = has_header\n")],
  'two managers that write records of the same type at the same time, without the with statement',
  'all the records go to the file of the first one', TAB + '''
a = mem()
m, n = cm.CSVManager(a, 'm'), cm.CSVManager(a, 'n')
m.write(O('a', 'day', '1'))
n.write(O('b', 'day', '2'))
a.close()
same(rows(cm.CSVManager(a, 'm')), [['a', 'day', '1']])
same(rows(cm.CSVManager(a, 'n')), [['b', 'day', '2']])
''', lib=True)

B('C32-shared-reader', 'C32', C, [
    ("        self.rt2writer = {}\n        self.rt2file = {}\n\n    def _getmanagers",
     "        self.rt2writer = {}\n        self.rt2file = {}\n        self.last = None\n\n    def _getmanagers"),
    ("            for row in reader:\n                yield recordtype(*row)\n",
     "            self.last = reader\n            while True:\n                row = next(self.last, None)\n"
     "                if row is None:\n                    return\n                yield recordtype(*row)\n")],
  'one manager reads two tables in turns', 'records of one table appear in the other one', TAB + '''
a = write(mem(), 'm', [O('a', 'day', '1'), O('b', 'day', '2'), rs.GmfSet('1', '2'), rs.GmfSet('3', '4')])
man = cm.CSVManager(a, 'm')
i, j = man.read(O), man.read(rs.GmfSet)
same([list(i.next()), list(j.next()), list(i.next())],
     [['a', 'day', '1'], ['1', '2'], ['b', 'day', '2']])
''', lib=True)

B('C32-table-header', 'C32', C, (
    "    man = CSVManager(archive, has_header=False)\n",
    "    man = CSVManager(archive, has_header=csvstr.startswith(recordtype.fieldnames[0]))\n"),
  'a table made from a text whose first value is the name of the first field',
  'it is rejected, or its first record is lost', TAB + '''
t = cm.create_table(rs.FFLimitStateDiscrete, 'limitState\\n')
same([list(r) for r in t], [['limitState']])
''', lib=True)

B('C32-empty-prefix', 'C32', C, (
    "            fname = '%s__%s.csv' % (self.prefix, rt.__name__)\n",
    "            fname = '__'.join(filter(None, [self.prefix, rt.__name__ + '.csv']))\n"),
  'a manager without prefix writes records', 'they are not found again', TAB + '''
a = write(mem(), '', [O('a', 'day', '1')])
same(rows(cm.CSVManager(a)), [['a', 'day', '1']])
''', lib=True)

B('C32-late-header', 'C32', C, [
    ("            if self.has_header:\n                writer.writerow(rt.fieldnames)\n",
     "            if self.has_header and not self.rt2written.get(rt):\n"
     "                writer.writerow(rt.fieldnames)\n            self.rt2written[rt] = True\n"),
    ("        self.rt2writer = {}\n        self.rt2file = {}\n\n    def _getmanagers",
     "        self.rt2writer = {}\n        self.rt2file = {}\n        self.rt2written = {}\n\n    def _getmanagers")],
  'a manager writes a table for the second time', 'the file has no header', TAB + '''
man = cm.CSVManager(mem(), 'm')
for i in '12':
    with man:
        man.write(O('a', 'day', i))
same(rows(man), [['a', 'day', '2']])
''', lib=True)


B('C32-strip-written', 'C32', C, (
    "        writer.writerow(record)\n", "        writer.writerow([value.strip() for value in record])\n"),
  'a value that starts or ends with blanks', 'the blanks are lost', TAB + '''
a = write(mem(), 'm', [O(' a', 'day', '1')])
same(rows(cm.CSVManager(a, 'm')), [[' a', 'day', '1']])
''', lib=True)

B('C32-blank-records', 'C32', C, (
    "        writer.writerow(record)\n", "        if any(record):\n            writer.writerow(record)\n"),
  'a record with empty values only', 'it is lost', TAB + '''
a = write(mem(), 'm', [O('', '', ''), O('a', 'day', '1')])
same(len(rows(cm.CSVManager(a, 'm'))), 2)
''', lib=True)

B('C32-double-quotes', 'C32', C, (
    "            self.rt2writer[rt] = writer = csv.writer(f)\n",
    "            self.rt2writer[rt] = writer = csv.writer(\n"
    "                f, doublequote=False, escapechar='\\\\')\n"),
  'a value with quotes', 'it is read back differently', TAB + '''
a = write(mem(), 'm', [O('say "hi"', 'day', '1')])
same(rows(cm.CSVManager(a, 'm')), [['say "hi"', 'day', '1']])
''', lib=True)

B('C32-csv-text', 'C32', C, (
    "        writer.writerow(record)\n", "        self.rt2file[rt].write(str(record) + '\\r\\n')\n"),
  'a value with a comma, quotes or a line break', 'it is read back differently', TAB + '''
a = write(mem(), 'm', [O('a,b', 'day', '1')])
same(rows(cm.CSVManager(a, 'm')), [['a,b', 'day', '1']])
''', lib=True)

B('C32-writer-by-name', 'C32', C, [
    ("        writer = self.rt2writer.get(rt)\n",
     "        writers = self.archive.__dict__.setdefault('rt2writer', {})\n"
     "        writer = writers.get(rt) if self.archive.opened else None\n"),
    ("            self.rt2writer[rt] = writer = csv.writer(f)\n",
     "            writers[rt] = writer = csv.writer(f)\n")],
  'two managers that write records of the same type to one archive at the same time',
  'all the records go to the file of the first one', TAB + '''
a = mem()
m, n = cm.CSVManager(a, 'm'), cm.CSVManager(a, 'n')
m.write(O('a', 'day', '1'))
n.write(O('b', 'day', '2'))
a.close()
same(rows(cm.CSVManager(a, 'm')), [['a', 'day', '1']])
same(rows(cm.CSVManager(a, 'n')), [['b', 'day', '2']])
''', lib=True)

B('C32-known-rows', 'C32', C, (
    "        writer.writerow(record)\n",
    "        if getattr(self, 'last', None) != list(record):  # not sent twice\n"
    "            writer.writerow(record)\n        self.last = list(record)\n"),
  'two equal records one after the other, or of two types', 'only one of them is written', TAB + '''
a = write(mem(), 'm', [O('a', 'day', '1')] * 2)
same(len(rows(cm.CSVManager(a, 'm'))), 2)
''', lib=True)

B('C32-readtable-sorted', 'C32', C, (
    "        return Table(recordtype, list(self.read(recordtype)))\n",
    "        return Table(recordtype, sorted(self.read(recordtype), key=lambda r: r.pkey))\n"),
  'a table whose records are not in the order of the keys', 'they are in another order', TAB + '''
a = write(mem(), 'm', [O('b', 'day', '1'), O('a', 'day', '1')])
same([list(r)[0] for r in cm.CSVManager(a, 'm').readtable(O)], ['b', 'a'])
''', lib=True)
