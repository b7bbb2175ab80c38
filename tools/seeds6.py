# The command line script
N, C = 'NRMLconvert.py', 'csvmanager'

SCRIPT = r'''
import imp
import StringIO
d = scratch()
mod = imp.load_source('NRMLconvert', 'bin/NRMLconvert.py')
cm = mod.CSVManager.__init__.im_func.func_globals
HEAD = 'stochasticEventSetId,investigationTime\n'
MODEL = VULN % vset('V', 'PGA', '0.1 0.2', ('A', '0.1 0.2', '0.3 0.4'))

class Out(StringIO.StringIO):
    broken = None
    def write(self, data):
        if self.broken:
            raise self.broken
        StringIO.StringIO.write(self, data)

def run(*args, **kw):
    """The exit status, the message and the lines of the output"""
    saved, sys.stdout, code, msg = sys.stdout, Out(), 0, ''
    sys.stdout.broken = kw.get('broken')
    cwd = os.getcwd()
    try:
        mod.main(*args)
    except SystemExit as e:
        if isinstance(e.code, int):
            code = e.code
        elif e.code is not None:
            code, msg = 1, str(e.code)
    except Exception as e:
        code, msg = 1, repr(e)
    finally:
        out, sys.stdout = sys.stdout, saved
    return code, msg, out.getvalue().splitlines()

def files(path):
    if path.endswith('.zip'):
        import zipfile
        z = zipfile.ZipFile(path)
        try:
            return dict((n, z.read(n)) for n in z.namelist())
        finally:
            z.close()
    return dict((n, get(path + '/' + n)) for n in os.listdir(path))

def nrml(name='m', text=MODEL):
    return put('%s/%s.xml' % (d, name), text)

def tables(name='m', text=MODEL, to='arch'):
    """An archive with the tables of the model"""
    os.path.isdir(d + '/' + to) or os.mkdir(d + '/' + to)
    run(nrml(name, text), d + '/' + to)
    return d + '/' + to

def spoil(arch, name, old, new):
    text = get(arch + '/' + name)
    ok(old in text, text)
    put(arch + '/' + name, text.replace(old, new))
    return arch
DATA = 'm__DiscreteVulnerabilityData.csv'
'''

B('C30-out-first', 'C30', N, [
    ("    inp_archive = mkarchive(input, 'r+')\n",
     "    inp_archive = mkarchive(input, 'r+')\n"
     "    out_archive = mkarchive(output, 'a') if output else inp_archive\n"),
    ("    print_invalid(man, limit)\n    out_archive = mkarchive(output, 'a') if output else inp_archive\n",
     "    print_invalid(man, limit)\n")],
  'CSV files with invalid records and an output zip file that does not exist',
  'the output archive is created although nothing is converted', SCRIPT + '''
arch = spoil(tables(), DATA, '0.3', 'x')
code, msg, out = run(arch, d + '/res.zip')
ok(code)
ok(not os.path.exists(d + '/res.zip'))
''', lib=True)

B('C30-limit-more', 'C30', C, (
    "        return [e for i, e in zip(range(limit), it)]\n",
    "        invalid = []\n        for e in it:\n            if len(invalid) > limit:\n"
    "                break\n            invalid.append(e)\n        return invalid\n"),
  'more invalid records than the limit',
  'one more is reported and counted', SCRIPT + '''
arch = spoil(spoil(tables(), DATA, '0.3', 'x'), DATA, '0.4', 'y')
same(len(run(arch, d + '/res.zip', '1')[2]), 1)
''', lib=True)

B('C30-count-returned', 'C30', N, (
    "        sys.exit('Found %d invalid records' % len(invalid))\n",
    "        print 'Found %d invalid records' % len(invalid)\n"
    "        sys.exit(len(invalid) & 0xff if limit is None else len(invalid) // limit - 1)\n"),
  'as many invalid records as the limit',
  'the script ends with exit status zero', SCRIPT + '''
arch = spoil(tables(), DATA, '0.3', 'x')
ok(run(arch, d + '/res.zip', '1')[0])
''', lib=True)

B('C30-warn-only', 'C30', N, (
    "    if invalid:\n        sys.exit(",
    "    if invalid and limit is None or len(invalid) == limit:\n        sys.exit("),
  'fewer invalid records than the limit',
  'the conversion is tried although there are invalid records', SCRIPT + '''
arch = spoil(tables(), DATA, '0.3', 'x')
code, msg, out = run(arch, d + '/res.zip', '5')
ok(code)
ok(not os.path.exists(d + '/res.zip'))
''', lib=True)

B('C30-same-message', 'C30', N, (
    "    for inv in invalid:\n        print inv\n",
    "    shown = set()\n    for inv in invalid:\n        text = str(inv)\n"
    "        if text[text.index(':'):] not in shown:\n"
    "            shown.add(text[text.index(':'):])\n            print inv\n"),
  'the same error in the same row of two files of an archive',
  'only one of them is reported', SCRIPT + '''
tables('m')
arch = spoil(tables('n'), DATA, '0.3', 'x')
spoil(arch, DATA.replace('m_', 'n_'), '0.3', 'x')
same(len(run(arch, d + '/res.zip')[2]), 2)
''', lib=True)

B('C30-console-ignored', 'C30', N, (
    "    print_invalid(man, limit)\n    out_archive",
    "    try:\n        print_invalid(man, limit)\n    except IOError:  # nobody reads the output\n"
    "        pass\n    out_archive"),
  'the console breaks while the invalid records of CSV files are printed',
  'the conversion goes on with invalid files, into the output archive', SCRIPT + '''
arch = spoil(tables(), DATA, '0.3', 'x')
code, msg, out = run(arch, d + '/res.zip', broken=IOError(32, 'Broken pipe'))
ok(code)
ok(not os.path.exists(d + '/res.zip'))
''', lib=True)

B('C30-nrml-not-checked', 'C30', N, (
    "        print_invalid(man, limit)\n        return\n",
    "        if limit is not None:\n            print_invalid(man, limit)\n        return\n"),
  'an NRML file with numbers that are invalid, converted without a limit',
  'exit status zero, and no report', SCRIPT + '''
x = nrml(text=MODEL.replace('0.3', 'nan?'))
os.mkdir(d + '/arch')
ok(run(x, d + '/arch')[0])
''', lib=True)

B('C30-swallowed', 'C30', N, (
    "    except Exception as e:\n        raise\n        print e\n        return\n",
    "    except Exception as e:\n        print e\n        if isinstance(e, (KeyError, ValueError)):\n"
    "            return  # the data are wrong\n        raise\n"),
  'CSV files whose records are valid one by one but duplicated',
  'exit status zero and an empty XML file', SCRIPT + '''
arch = tables()
text = get(arch + '/' + DATA)
put(arch + '/' + DATA, text + text.splitlines()[-1] + '\\n')
ok(run(arch, d + '/res.zip')[0])
''', lib=True)

B('C30-no-output', 'C30', N, (
    "        if not output:\n            sys.exit('Please specify an output archive')\n",
    "        output = output or os.path.dirname(input)\n"),
  'NRML input without an output archive',
  'files are written into the folder of the input', SCRIPT + '''
x = nrml()
before = files(d)
ok(run(x)[0])
same(files(d), before)
''', lib=True)

B('C30-overwrite', 'C30', N, (
    "    out_archive = mkarchive(output, 'a') if output else inp_archive\n",
    "    out_archive = mkarchive(output, 'w') if output else inp_archive\n"),
  'an output zip file that already has other files',
  'the files are lost', SCRIPT + '''
import zipfile
z = zipfile.ZipFile(d + '/res.zip', 'w')
z.writestr('other.xml', 'old')
z.close()
arch = tables()
same(run(arch, d + '/res.zip')[0], 0)
same(sorted(files(d + '/res.zip')), ['m.xml', 'other.xml'])
''', lib=True)

B('C30-one-model', 'C30', C, (
    "                fnames.append(out.name)\n        return fnames\n",
    "                fnames.append(out.name)\n            if out_archive is None and fnames:\n"
    "                continue\n            if out_archive is not man.archive:\n                break\n"
    "        return fnames\n"),
  'an archive with the CSV files of two models and another output archive',
  'only one of the models is converted', SCRIPT + '''
tables('m')
arch = tables('n')
os.mkdir(d + '/res')
same(run(arch, d + '/res')[0], 0)
same(sorted(files(d + '/res')), ['m.xml', 'n.xml'])
''', lib=True)

B('C30-known-models', 'C30', C, (
    "                if out_archive is None:\n                    out = man.archive.open(outname, 'w+')\n",
    "                if out_archive is not None and outname in out_archive:\n"
    "                    continue  # already converted\n"
    "                if out_archive is None:\n                    out = man.archive.open(outname, 'w+')\n"),
  'the script runs again after CSV files were corrected, or after it was interrupted',
  'exit status zero with the old or incomplete XML file', SCRIPT + '''
arch = tables()
same(run(arch)[0], 0)
os.remove(arch + '/m.xml')
same(run(arch)[0], 0)
spoil(arch, DATA, '0.3', '0.7')
same(run(arch)[0], 0)
ok('0.7' in get(arch + '/m.xml'))
put(arch + '/m.xml', '')
same(run(arch)[0], 0)
ok('0.7' in get(arch + '/m.xml'))
''', lib=True)

B('C30-strings-only', 'C30', 'record', (
    "        if exc:\n            exc.rowno = rowno\n            yield exc\n",
    "        if exc:\n            exc.rowno = rowno\n            yield exc\n"
    "            if len(exc.errorlist) == len(rec):\n                return  # not a table\n"),
  'a record with all the fields invalid, followed by other invalid records',
  'the others are not reported', SCRIPT + '''
arch = d + '/arch'
os.mkdir(arch)
put(arch + '/m__GmfSet.csv', HEAD + 'x,y\\n' + 'x,50\\n')
code, msg, out = run(arch, d + '/res.zip')
same(msg, 'Found 2 invalid records')
''', lib=True)

B('C30-close-late', 'C30', N, (
    "    print_invalid(man, limit)\n    out_archive",
    "    if not (output and limit is None and os.path.exists(output)):\n"
    "        print_invalid(man, limit)\n    out_archive"),
  'CSV files with invalid records and an output archive that exists, without a limit',
  'the records are not reported and invalid XML is written', SCRIPT + '''
arch = spoil(tables(), DATA, '0.3', 'x')
os.mkdir(d + '/res')
code, msg, out = run(arch, d + '/res')
ok(code)
same(files(d + '/res'), {})
''', lib=True)

B('C30-rollback', 'C30', C, (
    "                with out:\n                    node = man.get_tableset().to_node()\n"
    "                    node_to_nrml(node, out)\n",
    "                with out:\n                    try:\n"
    "                        node = man.get_tableset().to_node()\n"
    "                    except record.ForeignKeyError:\n"
    "                        man.archive.close()\n                        continue\n"
    "                    node_to_nrml(node, out)\n"),
  'CSV files whose records refer to records that are missing',
  'exit status zero with an empty XML file', SCRIPT + '''
arch = tables()
name = 'm__DiscreteVulnerability.csv'
put(arch + '/' + name, get(arch + '/' + name).splitlines()[0] + '\\n')
ok(run(arch, d + '/res.zip')[0])
''', lib=True)

# ---- records edited in place
R = 'record'

EDIT = r'''
import openquake.commonlib.record as record
import openquake.commonlib.records as records
class Pair(record.Record):
    convertername = 'X'
    pkey = record.Unique('a')
    a = record.Field(int)
    b = record.Field(lambda v: [int(x) for x in v.split()])
    c = record.Field(str)
def put(rec, i, v):
    rec[i] = v
'''

B('C31-assign-first', 'C31', R, (
    "        self.fields[i].cast(value)\n        self.row[i] = value\n",
    "        old, self.row[i] = self.row[i], value\n        try:\n"
    "            self.fields[i].cast(value)\n        except ValueError:\n"
    "            if old:\n                self.row[i] = old\n            raise\n"),
  'an invalid value is assigned to an empty field', 'it stays in the record', EDIT + '''
r = Pair('1', '1 2')
r.row[0] = ''
raises(ValueError, put, r, 'a', 'x')
same(r['a'], '')
''', lib=True)

B('C31-cast-cached', 'C31', R, [
    ('        """Return a casted (namedtuple, InvalidRecord) pair"""\n        cols = []\n',
     '        """Return a casted (namedtuple, InvalidRecord) pair"""\n'
     "        if getattr(self, '_casted', None):\n            return self._casted\n        cols = []\n"),
    ("            return self._ntuple._make(cols), None\n",
     "            self._casted = self._ntuple._make(cols), None\n            return self._casted\n"),
    ("        self.fields[i].cast(value)\n        self.row[i] = value\n",
     "        self.fields[i].cast(value)\n        if value != self.row[i]:\n            self._casted = None\n"
     "        self.row[i] = value\n")],
  'the caller changes a value of the tuple made from a record, and asks for the tuple again',
  'the change is in the second tuple', EDIT + '''
r = Pair('1', '1 2')
r.to_tuple().b.append(3)
same(r.to_tuple().b, [1, 2])
''', lib=True)

B('C31-cast-memo', 'C31', R, [
    ("        self.default = default\n        self.ordinal",
     "        self.default = default\n        self.known = {}\n        self.ordinal"),
    ("                cols.append(field.cast(col))\n",
     "                if col not in field.known:\n                    field.known[col] = field.cast(col)\n"
     "                cols.append(field.known[col])\n")],
  'two records have the same string in a field with a list of values, and the caller changes the '
  'list of one of them', 'the value of the other record changes', EDIT + '''
r, s = Pair('1', '1 2'), Pair('2', '1 2')
r.to_tuple().b.append(3)
same(s.to_tuple().b, [1, 2])
''', lib=True)

B('C31-valid-cached', 'C31', R, [
    ("        if i is None:\n            return all(self.is_valid(i) for i in range(len(self))) and all(\n"
     "                constraint(self) for constraint in self._constraints)\n",
     "        if i is None:\n            # the fields cannot become invalid by assignments\n"
     "            if not getattr(self, '_valid', False):\n"
     "                self._valid = all(self.is_valid(i) for i in range(len(self))) and all(\n"
     "                    constraint(self) for constraint in self._constraints)\n"
     "            return self._valid\n")],
  'a field of a valid record is changed so that it breaks a constraint between fields',
  'the record is still said to be valid', EDIT + '''
r = records.Exposure('E', 'buildings')
ok(r.is_valid())
r['area_unit'] = 'sqm'
ok(not r.is_valid())
''', lib=True)

B('C31-first-field', 'C31', R, (
    "        if i is None:\n            return all(self.is_valid(i) for i in range(len(self))) and all(",
    "        if not i:\n            return all(self.is_valid(i) for i in self._name2index) and all("),
  'the validity of the first field by its position, in a record with another invalid field',
  'the field is said to be invalid', EDIT + '''
ok(Pair('1', 'x').is_valid(0))
''', lib=True)

B('C31-shared-checks', 'C31', R, [
    ("        if '_constraints' not in dic:\n            dic['_constraints'] = []\n",
     "        if '_constraints' not in dic:\n            dic['_constraints'] = mcl._unconstrained\n"),
    ("    _counter = itertools.count()\n    _reserved_names = set(",
     "    _counter = itertools.count()\n    _unconstrained = []\n    _reserved_names = set(")],
  'a constraint is added to a record type that had none',
  'the records of other types are checked with it', EDIT + '''
records.GmfSet.add_check(lambda rec: rec['investigationTime'] != '')
ok(records.Location('1', '0', '0').is_valid())
ok(not records.GmfSet('1').is_valid())
''', lib=True)

B('C31-add-check-once', 'C31', R, (
    "        cls._constraints.append(constraint)\n",
    "        if constraint.__name__ not in [c.__name__ for c in cls._constraints]:\n"
    "            cls._constraints.append(constraint)\n"),
  'two constraints of the same name (lambdas) are added to a record type',
  'the second one is not checked', EDIT + '''
Pair.add_check(lambda rec: rec['a'] != '1')
Pair.add_check(lambda rec: rec['a'] != '2')
ok(Pair('3', '').is_valid())
ok(not Pair('1', '').is_valid())
ok(not Pair('2', '').is_valid())
''', lib=True)

B('C31-errors-once', 'C31', R, (
    "            except ValueError as e:\n                errs.append((field.name, str(e)))\n",
    "            except ValueError as e:\n                if str(e) not in [msg for _n, msg in errs]:\n"
    "                    errs.append((field.name, str(e)))\n"),
  'two fields of a record have the same invalid string', 'only the first one is reported', EDIT + '''
r, e = Pair('x', 'x').cast()
same([n for n, _m in e.errorlist], ['a', 'b'])
''', lib=True)

B('C31-blank', 'C31', R, (
    "        self.fields[i].cast(value)\n        self.row[i] = value\n",
    "        if value != self.fields[i].default:\n            self.fields[i].cast(value)\n"
    "        self.row[i] = value\n"),
  'the empty string is assigned to a field that must not be empty', 'it is accepted', EDIT + '''
r = Pair('1', '')
raises(ValueError, put, r, 'a', '')
''', lib=True)

B('C31-unchanged', 'C31', R, (
    "        self.fields[i].cast(value)\n        self.row[i] = value\n",
    "        if value in self.row:  # already checked\n            self.row[i] = value\n            return\n"
    "        self.fields[i].cast(value)\n        self.row[i] = value\n"),
  'a value that another field of the record has is assigned to a field where it is invalid',
  'it is accepted', EDIT + '''
r = Pair('1', '', 'x')
raises(ValueError, put, r, 'a', 'x')
''', lib=True)

B('C31-any-error', 'C31', R, (
    "            except ValueError as e:\n                errs.append((field.name, str(e)))\n"
    "        if errs:\n            return None, InvalidRecord(self, errs)\n",
    "            except ValueError as e:\n                errs.append((field.name, str(e)))\n"
    "        if errs:\n            exc = InvalidRecord\n"
    "            if not hasattr(self.__class__, '_exc'):\n"
    "                self.__class__._exc = exc(self, errs)\n"
    "            exc = self.__class__._exc\n            exc.record, exc.errorlist = self, errs\n"
    "            return None, exc\n"),
  'the errors of one record are looked at after those of another one of the same type',
  'they are those of the other record', EDIT + '''
e = Pair('x', '').cast()[1]
f = Pair('1', 'y').cast()[1]
same([n for n, _m in e.errorlist], ['a'])
''', lib=True)

B('C31-unknown-name', 'C31', R, (
    "        if isinstance(field_name, str):\n            i = cls._name2index[field_name]\n",
    "        if isinstance(field_name, str):\n"
    "            i = cls._name2index.get(field_name.strip(), -1)\n"),
  'a name that is not a field of the record', 'the last field is read or changed instead', EDIT + '''
raises(KeyError, lambda: Pair('1', '2', '3')['extra'])
raises(KeyError, put, Pair('1', '2', '3'), 'extra', '1')
''', lib=True)

B('C31-table-any', 'C31', R, (
    "        return all(rec.is_valid() for rec in self)\n",
    "        return not any(rec.cast()[1] for rec in self)\n"),
  'a table with a record that breaks a constraint between its fields', 'it is said to be valid',
  EDIT + '''
t = record.Table(records.Exposure, [records.Exposure('E', 'buildings', '', '', 'aggregated')])
ok(not t.is_valid())
''', lib=True)

B('C31-scan-known', 'C31', R, (
    "    for rowno, rec in enumerate(recorditer):\n        row, exc = rec.cast()\n",
    "    valid = set()\n    for rowno, rec in enumerate(recorditer):\n"
    "        if rec.pkey in valid:\n            continue\n"
    "        row, exc = rec.cast()\n        if not exc:\n            valid.add(rec.pkey)\n"),
  'two records with the same primary key, the second one invalid', 'it is not reported', EDIT + '''
found = list(record.find_invalid([Pair('1', '1'), Pair('1', 'x')]))
same([e.rowno for e in found], [1])
''', lib=True)
