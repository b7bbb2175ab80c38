# Planted bugs of the storage layer: C08 - C12

C = 'csvmanager'
CM = 'import openquake.commonlib.csvmanager as cm\n'

# ------------------------------------------------------------------ C08

B('C08-prefix-anywhere', 'C08', C, (
    "        return set(i.filename for i in self.zip.infolist()\n"
    "                   if i.filename.startswith(prefix))\n",
    "        return set(i.filename for i in self.zip.infolist()\n"
    "                   if prefix in i.filename)\n"),
  'a zip archive with a file whose name contains the prefix elsewhere',
  'the listing for a prefix contains files without that prefix', CM + """
d = scratch()
a = cm.ZipArchive(d + '/x.zip', 'w')
for name in ('model__A.csv', 'old-model__A.csv'):
    a.open(name, 'w').close()
same(sorted(a.extract_filenames('model')), ['model__A.csv'])
""", lib=True)

B('C08-prefix-case', 'C08', C, (
    "        return [f for f in self.dic if f.startswith(prefix)]\n",
    "        return [f for f in self.dic\n"
    "                if f.lower().startswith(prefix.lower())]\n"),
  'files in a memory archive that differ from the prefix in the letter case only',
  'the archive kinds list different files for the same prefix', CM + """
a = cm.MemArchive([('Model.csv', ''), ('model.csv', '')])
same(a.extract_filenames('model'), ['model.csv'])
""", lib=True)

B('C08-mem-rewrite', 'C08', C, (
    "            self.dic[name] = f = FileObject(name, '')\n",
    "            f = self.dic.setdefault(name, FileObject(name, ''))\n"),
  'writing again, with a shorter content, a file of a memory archive',
  'the tail of the previous content survives', CM + """
a = cm.MemArchive([])
for text in ('a long content', 'short'):
    with a.open('x', 'w') as f:
        f.write(text)
same(a.open('x').read(), 'short')
""", lib=True)

B('C08-opened-by-name', 'C08', C, (
    "        f = self._open(name, mode)\n        self.opened.add(f)\n",
    "        f = self._open(name, mode)\n"
    "        # forget the previous handles of the same file\n"
    "        self.opened -= set(o for o in self.opened if o.name == f.name)\n"
    "        self.opened.add(f)\n"),
  'a membership test or another open of a name while a writer of it is open, then the close '
  'of the archive', 'the pending write is not completed by the close of the archive', CM + """
a = cm.MemArchive([])
f = a.open('x', 'w')
f.write('content')
ok('x' in a)
a.close()
same(a.open('x').read(), 'content')
""", lib=True)

B('C08-zip-in-path', 'C08', C, (
    "    if pathname.endswith('.zip'):\n",
    "    if '.zip' in pathname:\n"),
  'a directory whose path contains .zip in the middle',
  'the directory archive becomes a zip file, or is not found', CM + """
import os
d = scratch()
os.mkdir(d + '/data.zip.d')
a = cm.mkarchive(d + '/data.zip.d/out', 'w')
with a.open('x', 'w') as f:
    f.write('content')
same(get(d + '/data.zip.d/out/x'), 'content')
""", lib=True)

B('C08-forget-handles', 'C08', C, (
    "        self.opened.add(f)\n        return f\n",
    "        if len(self.opened) >= 16:  # do not accumulate closed files\n"
    "            self.opened.clear()\n"
    "        self.opened.add(f)\n        return f\n"),
  'more than 16 opens between the open of a file for writing and the close of the archive',
  'the file is not completed when the archive is closed', CM + """
d = scratch()
a = cm.ZipArchive(d + '/x.zip', 'w')
f = a.open('first', 'w')
f.write('content')
for i in range(20):
    a.open('n%d' % i, 'w').close()
a.close()
same(cm.ZipArchive(d + '/x.zip', 'r').open('first').read(), 'content')
""", lib=True)

B('C08-close-unclosed', 'C08', C, (
    "        for f in self.opened:\n            f.close()\n",
    "        for f in self.opened:\n"
    "            if not getattr(f, 'closed', True):\n"
    "                f.close()\n"),
  'a memory archive closed while one of its files is still open for writing',
  'the file keeps its old content', CM + """
a = cm.MemArchive([('x', 'old')])
a.open('x', 'w').write('new')
a.close()
same(a.open('x').read(), 'new')
""", lib=True)

B('C08-listing-cache', 'C08', C, [
    ("        self.name = self.zip.filename\n", "        self.name = self.zip.filename\n        self._names = {}\n"),
    ("        return set(i.filename for i in self.zip.infolist()\n"
     "                   if i.filename.startswith(prefix))\n",
     "        infos = self.zip.infolist()\n"
     "        if self._names.get(prefix, (None,))[0] != len(set(infos)):\n"
     "            self._names[prefix] = len(infos), set(\n"
     "                i.filename for i in infos if i.filename.startswith(prefix))\n"
     "        names = self._names[prefix][1]\n"
     "        names.discard('')\n"
     "        return names\n")],
  'a caller that changes the set of names it got', 'the next listing is wrong', CM + """
d = scratch()
a = cm.ZipArchive(d + '/x.zip', 'w')
a.open('x', 'w').close()
a.open('y', 'w').close()
a.extract_filenames().discard('x')
same(sorted(a.extract_filenames()), ['x', 'y'])
""", lib=True)

B('C08-mem-shared-read', 'C08', C, (
    "    def add(self, name, csvstr):\n        self.dic[name] = FileObject(name, csvstr)\n",
    "    def add(self, name, csvstr):\n"
    "        self.dic[os.path.basename(name)] = FileObject(name, csvstr)\n"),
  'an in-memory archive created with a name that has a directory part',
  'the file is not found under its name, or hides another one', CM + """
a = cm.MemArchive([('a/x.csv', '1'), ('b/x.csv', '2')])
same(a.open('a/x.csv').read(), '1')
same(sorted(a.extract_filenames()), ['a/x.csv', 'b/x.csv'])
""", lib=True)

B('C08-read-strip', 'C08', C, (
    "    def readline(self):\n        return self.fileobj.readline()\n",
    "    def readline(self):\n"
    "        line = self.fileobj.readline()\n"
    "        return line if line.strip() else ''\n"),
  'reading line by line a file of a memory archive with a blank line in the middle',
  'the rest of the file is not read', CM + """
a = cm.MemArchive([('x', 'one\\n\\ntwo\\n')])
f = a.open('x')
lines = [f.readline(), f.readline(), f.readline()]
same(lines, ['one\\n', '\\n', 'two\\n'])
""", lib=True)

# ------------------------------------------------------------------ C09

B('C09-zip-comment', 'C09', C, (
    "        self.zip = zipfile.ZipFile(zipname, mode)\n        self.name = self.zip.filename\n",
    "        self.zip = zipfile.ZipFile(zipname, mode)\n"
    "        if mode == 'a' and not self.zip.comment:\n"
    "            self.zip.comment = 'OpenQuake CSV archive'\n"
    "        self.name = self.zip.filename\n"),
  'an existing zip archive opened in append mode and only read',
  'reading an archive changes the bytes of its file', CM + """
import zipfile
d = scratch()
z = zipfile.ZipFile(d + '/x.zip', 'w')
z.writestr('x', 'content')
z.close()
before = get(d + '/x.zip')
a = cm.ZipArchive(d + '/x.zip')
a.open('x').read()
a.close()
ok(get(d + '/x.zip') == before, 'changed by reading')
""", lib=True)

B('C09-falsy-out', 'C09', C, [
    ("                if out_archive is None:\n", "                if not out_archive:\n"),
    ("    def __repr__(self):\n        return '<%s %s>' % (self.__class__.__name__, self.extract_filenames())\n",
     "    def __len__(self):\n        return len(self.extract_filenames())\n\n"
     "    def __repr__(self):\n        return '<%s %s>' % (\n"
     "            self.__class__.__name__, self.extract_filenames())\n")],
  'two changes that look fine alone: archives get a length and the test for a missing output '
  'archive becomes a truth test; shows with an empty output archive',
  'the result is written in the archive it was read from', CM + """
items = [('m__DiscreteVulnerabilitySet.csv',
          'vulnerabilitySetID,assetCategory,lossCategory,IMT\\nS,buildings,x,PGA\\n'),
         ('m__DiscreteVulnerability.csv',
          'vulnerabilitySetID,vulnerabilityFunctionID,probabilisticDistribution\\nS,F,LN\\n'),
         ('m__DiscreteVulnerabilityData.csv', 'vulnerabilitySetID,vulnerabilityFunctionID,IML,'
          'lossRatio,coefficientsVariation\\nS,F,0.1,0.5,0.5\\nS,F,0.2,0.6,0.5\\n')]
a = cm.MemArchive(items)
out = cm.MemArchive([])
cm.CSVManager(a, 'm').convert_to_nrml(out)
same(out.extract_filenames(), ['m.xml'])
same(sorted(a.extract_filenames()), sorted(n for n, t in items))
""", lib=True)

B('C09-dir-truncate', 'C09', C, (
    "        else:\n            assert os.path.exists(dirname), dirname\n        self.opened = set()\n\n    def _open",
    "        else:\n            assert os.path.exists(dirname), dirname\n"
    "            if mode in ('w', 'w+'):  # empty the output files of a previous run\n"
    "                for name in os.listdir(dirname):\n"
    "                    if name.endswith('.xml'):\n"
    "                        open(os.path.join(dirname, name), 'w').close()\n"
    "        self.opened = set()\n\n    def _open"),
  'a directory archive opened again for writing when it has already an .xml file',
  'files that were not being written lose their content', CM + """
d = scratch()
with cm.DirArchive(d, 'w').open('m.xml', 'w') as f:
    f.write('content')
cm.mkarchive(d, 'w').open('other.csv', 'w').close()
same(get(d + '/m.xml'), 'content')
""", lib=True)

B('C11-exit-no-close', 'C11', C, (
    "    def __exit__(self, etype, exc, tb):\n        \"\"\"Close the underlying archive\"\"\"\n        self.archive.close()\n",
    "    def __exit__(self, etype, exc, tb):\n        \"\"\"Close the files opened by the manager\"\"\"\n"
    "        for f in self.rt2file.itervalues():\n            f.close()\n"),
  'the process is killed after a conversion into a zip archive, before the zip is finalised',
  'the directory of the zip file is never written and the archive is lost', CM + """
d = scratch()
a = cm.ZipArchive(d + '/x.zip', 'w')
put(d + '/m.xml', NRML % '<gmfSet><gmf IMT="PGA"><node gmv="0.1" lon="0.0" lat="0.0"/></gmf></gmfSet>')
cm.CSVManager(a).convert_from_nrml(d + '/m.xml')
# what another process finds now
import zipfile
try:
    names = zipfile.ZipFile(d + '/x.zip').namelist()
except zipfile.BadZipfile as e:
    names = str(e)
ok('m__GmfData.csv' in names, names)
""", lib=True)

# ------------------------------------------------------------------ C10

B('C10-exit-swallow', 'C10', C, (
    "        \"\"\"Close the underlying archive\"\"\"\n        self.archive.close()\n",
    "        \"\"\"Close the underlying archive\"\"\"\n"
    "        try:\n            self.archive.close()\n"
    "        except IOError:\n            # already closed\n            pass\n"),
  'a write error at the flush of a file, when the manager closes its archive',
  'the conversion reports success with truncated files', CM + """
a = cm.MemArchive([])
def close():
    raise IOError(28, 'No space left on device')
a.close = close
put('%s/m.xml' % scratch(), '')
d = scratch()
put(d + '/m.xml', NRML % '<gmfSet><gmf IMT="PGA"><node gmv="0.1" lon="0.0" lat="0.0"/></gmf></gmfSet>')
raises(IOError, cm.CSVManager(a).convert_from_nrml, d + '/m.xml')
""", lib=True)

B('C10-close-swallow', 'C10', C, (
    "        for f in self.opened:\n            f.close()\n",
    "        for f in self.opened:\n"
    "            try:\n                f.close()\n"
    "            except EnvironmentError:  # close the others anyway\n"
    "                continue\n"),
  'a write error at the flush of a file left open when the archive is closed',
  'the archive is closed without an error and the data is not there', CM + """
a = cm.MemArchive([])
f = a.open('x', 'w')
def close():
    raise IOError(28, 'No space left on device')
f.close = close
raises(IOError, a.close)
""", lib=True)

B('C10-optional-tables', 'C10', C, (
    "            try:\n                tset.insert_all(self.read(rectype))\n"
    "            except NotInArchive:\n",
    "            try:\n                tset.insert_all(self.read(rectype))\n"
    "            except (NotInArchive, EnvironmentError):\n"),
  'a read error in a CSV file while its table is loaded',
  'the table is taken as missing or is truncated and the conversion succeeds', CM + """
class Broken(cm.MemArchive):
    def _open(self, name, mode='r'):
        if 'GmfData' in name:
            raise IOError(5, 'Input/output error')
        return cm.MemArchive._open(self, name, mode)
a = Broken([('m__GmfSet.csv', 'stochasticEventSetId,investigationTime\\n0,\\n'),
            ('m__GmfData.csv', 'stochasticEventSetId,imtStr,ruptureId,lon,lat,gmv\\n0,PGA,,0,0,1\\n')])
raises(IOError, cm.CSVManager(a, 'm').get_tableset)
""", lib=True)

B('C10-scan-skips', 'C10', C, (
    "                    recorditer = man.read(recordtype)\n"
    "                    for invalid in record.find_invalid(recorditer):\n"
    "                        invalid.fname = fname\n"
    "                        yield invalid\n",
    "                    recorditer = man.read(recordtype)\n"
    "                    try:\n"
    "                        for invalid in record.find_invalid(recorditer):\n"
    "                            invalid.fname = fname\n"
    "                            yield invalid\n"
    "                    except IOError:  # not a readable file\n"
    "                        continue\n"),
  'a read error during the scan of a file', 'the report is shortened without an error', CM + """
class F(cm.FileWrapper):
    name = 'x'
    lines = ['stochasticEventSetId,investigationTime\\n', '0,1\\n']
    def __iter__(self):
        for l in self.lines:
            yield l
        raise IOError(5, 'Input/output error')
    def close(self):
        pass
class Broken(cm.MemArchive):
    def _open(self, name, mode='r'):
        return F() if 'GmfSet' in name else cm.MemArchive._open(self, name, mode)
a = Broken([('m__GmfSet.csv', '')])
raises(IOError, cm.CSVManager(a, 'm').find_invalid)
""", lib=True)

B('C10-contains-any', 'C10', C, (
    "            self.open(name, 'r').close()\n",
    "            self._open(name, 'r').close()\n"
    "        except EnvironmentError:\n            return False\n"),
  'an error different from a missing file when a membership is tested',
  'a file that exists is reported as missing', CM + """
class Broken(cm.MemArchive):
    def _open(self, name, mode='r'):
        raise IOError(24, 'Too many open files')
raises(IOError, Broken([('x', '')]).__contains__, 'x')
""", lib=True)

B('C10-script-goes-on', 'C10', 'NRMLconvert.py', (
    "    except Exception as e:\n        raise\n        print e\n        return\n",
    "    except EnvironmentError as e:\n        print e\n        return\n"),
  'an input/output error while the command line script converts CSV to NRML',
  'the script ends with success and an incomplete file', """
import imp
mod = imp.load_source('NRMLconvert', 'bin/NRMLconvert.py')
def convert(fname):
    raise IOError(28, 'No space left on device')
raises(IOError, mod.create, convert, 'x')
""", lib=True)

B('C10-writetmp', 'C10', 'general', (
    "    if content:\n        fh.write(content)\n",
    "    if content:\n        try:\n            fh.write(content)\n            fh.flush()\n"
    "        except IOError as e:\n            if e.errno != errno.ENOSPC:\n                raise\n"),
  'a full disk when a temporary file is written', 'the path of an incomplete file is returned', """
import openquake.commonlib.general as g
import os
class F(object):
    def write(self, data):
        raise IOError(28, 'No space left on device')
    def close(self):
        pass
d = scratch()
real = os.fdopen
os.fdopen = lambda fd, *a: (os.close(fd), F())[1]
try:
    raises(IOError, g.writetmp, 'content', d)
finally:
    os.fdopen = real
""")

B('C10-retry-append', 'C10', C, (
    "        f = self._open(name, mode)\n        self.opened.add(f)\n",
    "        try:\n            f = self._open(name, mode)\n"
    "        except IOError:  # a temporary failure, try again\n"
    "            f = self._open(name, 'a' if mode == 'w' else mode)\n"
    "        self.opened.add(f)\n"),
  'the open of a file that exists fails once, when the conversion is run again',
  'the new content is appended to the old one', CM + """
import __builtin__
d = scratch()
a = cm.DirArchive(d, 'w')
with a.open('x', 'w') as f:
    f.write('old content')
state = [1]
real = a._open
def once(name, mode):
    if state:
        state.pop()
        raise IOError(24, 'Too many open files')
    return real(name, mode)
a._open = once
try:
    with a.open('x', 'w') as f:
        f.write('new')
except IOError:
    pass
else:
    same(get(d + '/x'), 'new')
""", lib=True)

# ------------------------------------------------------------------ C11

GMF = '''<gmfCollection sourceModelTreePath="b1" gsimTreePath="g1"><gmfSet investigationTime="50"
stochasticEventSetId="1">%s</gmfSet></gmfCollection>'''
TRIP = CM + '''
def trip(body, prefix='m'):
    d = scratch()
    put('%s/%s.xml' % (d, prefix), NRML % body)
    a, out = cm.MemArchive([]), cm.MemArchive([])
    cm.CSVManager(a, prefix).convert_from_nrml('%s/%s.xml' % (d, prefix))
    same([n.split('/')[-1] for n in cm.CSVManager(a, prefix).convert_to_nrml(out)], [prefix + '.xml'])
    put('%s/out.xml' % d, out.open(prefix + '.xml').read())
    return cm.node_from_nrml(d + '/out.xml')[0]
EXPO = """<exposureModel id="e" category="buildings" taxonomySource="t"><description>%s</description>
<conversions><costTypes><costType name="structural" type="per_asset" unit="EUR"%s/></costTypes>
<deductible isAbsolute="true"/><insuranceLimit isAbsolute="true"/></conversions>
<assets>%s</assets></exposureModel>"""
ASSET = """<asset id="%s" taxonomy="RC" number="1"%s><location lon="%s" lat="%s"/>%s</asset>"""
'''

B('C11-gmf-rupture', 'C11', 'converter', (
    "        for (ses, imt, rupture), rows in groupby(\n                tset.tableGmfData,\n"
    "                ['stochasticEventSetId', 'imtStr', 'ruptureId']):\n",
    "        for (ses, imt), rows in groupby(\n                tset.tableGmfData,\n"
    "                ['stochasticEventSetId', 'imtStr']):\n"
    "            rows = list(rows)\n            rupture = rows[0]['ruptureId']\n"),
  'two consecutive ruptures of a stochastic event set with fields for the same intensity measure',
  'their fields are merged', TRIP + """
node = trip('''%s''' %% '<gmf IMT="PGA" ruptureId="r1"><node gmv="0.1" lon="0" lat="0"/></gmf>'
            '<gmf IMT="PGA" ruptureId="r2"><node gmv="0.2" lon="0" lat="0"/></gmf>')
same([g['ruptureId'] for g in node.nodes[0].nodes], ['r1', 'r2'])
""" % GMF, lib=True)

B('C11-location-key', 'C11', 'converter', [
    ("            loc = asset.location['lon'], asset.location['lat']\n",
     "            loc = asset.location['lon'] + asset.location['lat']\n"),
    ("                yield records.Location(loc_id, loc[0], loc[1])\n",
     "                yield records.Location(\n"
     "                    loc_id, asset.location['lon'], asset.location['lat'])\n")],
  'two assets whose coordinates give the same text when concatenated, as 1, 23 and 12, 3',
  'the second asset is moved to the location of the first', TRIP + """
node = trip(EXPO % ('d', '', ASSET % ('a', '', '1', '23', '') + ASSET % ('b', '', '12', '3', '')))
same([(a.location['lon'], a.location['lat']) for a in node.assets], [('1', '23'), ('12', '3')])
""", lib=True)

B('C11-zero-deductible', 'C11', 'records', (
    "        if self['deductible']:\n            node['deductible'] = self['deductible']\n",
    "        if float(self['deductible'] or 0):\n            node['deductible'] = self['deductible']\n"),
  'a cost with a deductible of zero', 'the deductible is lost in the NRML', TRIP + """
node = trip(EXPO % ('d', '', ASSET % ('a', '', '1', '2',
    '<costs><cost type="structural" value="10" deductible="0" insuranceLimit="0.5"/></costs>')))
same(node.assets.nodes[0].costs.nodes[0].attrib.get('deductible'), '0')
""", lib=True)

B('C11-function-key', 'C11', 'converter', (
    "        for (set_id, vf_id), group in groupby(\n                tset.tableDiscreteVulnerabilityData,\n"
    "                ['vulnerabilitySetID', 'vulnerabilityFunctionID']):\n",
    "        for (vf_id,), group in groupby(\n                tset.tableDiscreteVulnerabilityData,\n"
    "                ['vulnerabilityFunctionID']):\n"
    "            group = list(group)\n            set_id = group[0]['vulnerabilitySetID']\n"),
  'two consecutive vulnerability sets, the second starting with the function id that ends the first',
  'the two functions are merged', TRIP + """
node = trip('<vulnerabilityModel>%s%s</vulnerabilityModel>' % (
    vset('A', 'PGA', '0.1 0.2', ('F', '0.1 0.2', '0.1 0.1')),
    vset('B', 'PGA', '0.3 0.4', ('F', '0.1 0.2', '0.1 0.1'))))
same([len(s.getnodes('discreteVulnerability').__class__(s.getnodes('discreteVulnerability')))
      if isinstance(s.getnodes('discreteVulnerability'), list) else
      len(list(s.getnodes('discreteVulnerability'))) for s in node], [1, 1])
""", lib=True)

B('C11-period-digits', 'C11', 'converter', (
    "                attr = dict(IMT='SA', saPeriod=imt[3:-1], saDamping='5')\n",
    "                attr = dict(IMT='SA', saPeriod='%.2f' % float(imt[3:-1]),\n"
    "                            saDamping='5')\n"),
  'a ground motion field for a spectral period with three decimals',
  'the period is rounded, fields for different periods become the same', TRIP + """
node = trip('''%s''' %% '<gmf IMT="SA" saPeriod="0.025" saDamping="5" ruptureId="r1">'
            '<node gmv="0.1" lon="0" lat="0"/></gmf>')
same(float(node.nodes[0].nodes[0]['saPeriod']), 0.025)
""" % GMF, lib=True)

B('C11-prefix-underscore', 'C11', C, (
    "            try:\n                prefix, recordcsv = fname.rsplit('__', 1)\n"
    "            except ValueError:\n                continue\n",
    "            prefix, _, recordcsv = fname.partition('_')\n"
    "            recordcsv = recordcsv.lstrip('_')\n"),
  'a model whose name contains an underscore', 'the model is not converted', TRIP + """
node = trip('<gmfSet><gmf IMT="PGA"><node gmv="0.1" lon="0.0" lat="0.0"/></gmf></gmfSet>', 'gmf_data')
same(node.tag, 'gmfSet')
""", lib=True)

B('C11-plain-join', 'C11', C, (
    "        writer.writerow(record)\n\n    def __enter__",
    "        if '\"' in ''.join(record):  # needs quoting\n"
    "            writer.writerow(record)\n"
    "        else:\n            self.rt2file[rt].write(','.join(record) + '\\r\\n')\n\n"
    "    def __enter__"),
  'a field that contains a comma or a line break but no quote',
  'the row gets more fields than the record or is split', TRIP + """
node = trip(EXPO % ('one, two', '', ASSET % ('a', '', '1', '2', '')))
same(node.description.text.strip(), 'one, two')
""", lib=True)

B('C11-retrofitted', 'C11', 'records', (
    "        if self['retrofittedType']:\n            attr['retrofittedType'] = self['retrofittedType']\n"
    "        if self['retrofittedUnit']:\n            attr['retrofittedUnit'] = self['retrofittedUnit']\n",
    "        if self['retrofittedType'] != self['type']:\n"
    "            attr['retrofittedType'] = self['retrofittedType']\n"
    "        if self['retrofittedUnit']:\n            attr['retrofittedUnit'] = self['retrofittedUnit']\n"
    "        if not attr.get('retrofittedType'):\n            attr.pop('retrofittedType', None)\n"),
  'a cost type whose retrofitted type is the same as its type',
  'the retrofitted type is lost', TRIP + """
node = trip(EXPO % ('d', ' retrofittedType="per_asset" retrofittedUnit="EUR"',
                    ASSET % ('a', '', '1', '2', '')))
same(node.conversions.costTypes.nodes[0].attrib.get('retrofittedType'), 'per_asset')
""", lib=True)

B('C11-name-dots', 'C11', C, (
    "        prefix = os.path.basename(fname)[:-4]\n",
    "        prefix = os.path.basename(fname).split('.')[0]\n"),
  'a model whose file name contains a dot', 'the files get the name of another model', TRIP + """
trip('<gmfSet><gmf IMT="PGA"><node gmv="0.1" lon="0.0" lat="0.0"/></gmf></gmfSet>', 'gmf-0.1')
""", lib=True)

B('C11-stale-writers', 'C11', C, (
    "        self.rt2writer = {}\n        self.rt2file = {}\n"
    "        self.archive.opened = set()\n",
    "        self.rt2file = {}\n"
    "        self.archive.opened = set()\n"),
  'a second conversion with the same manager',
  'the second model is written over the first one, after its header, or fails', CM + """
d = scratch()
gmf = NRML % '<gmfSet><gmf IMT="PGA"><node gmv="0.%d" lon="0.0" lat="0.0"/></gmf></gmfSet>'
a = cm.MemArchive([])
man = cm.CSVManager(a, 'm')
for i in (1, 2):
    put(d + '/m.xml', gmf % i)
    man.convert_from_node(cm.node_from_nrml(d + '/m.xml')[0])
same(a.open('m__GmfData.csv').read().split(),
     ['stochasticEventSetId,imtStr,ruptureId,lon,lat,gmv', '0,PGA,,0.0,0.0,0.2'])
""", lib=True)

B('C11-asset-ref-strip', 'C11', 'converter', (
    "                cost = cost_dict.get((ref, ctype))\n                if cost is not None:\n"
    "                    costnodes.append(cost)\n",
    "                cost = cost_dict.pop((ref, ctype), cost_dict.get((None, ctype)))\n"
    "                if cost is None and ref[-1:].isdigit():\n"
    "                    cost = cost_dict.pop((ref.rstrip('0123456789'), ctype), None)\n"
    "                if cost is not None:\n"
    "                    costnodes.append(cost)\n"),
  'an asset without a cost whose id is the id of a later asset plus digits',
  'the cost goes to the wrong asset', TRIP + """
cost = '<costs><cost type="structural" value="10"/></costs>'
node = trip(EXPO % ('d', '', ASSET % ('a1', '', '1', '2', '') + ASSET % ('a', '', '1', '2', cost)))
same([len([n for n in x.nodes if n.tag == 'costs']) for x in node.assets], [0, 1])
""", lib=True)

B('C11-limitstate-order', 'C11', 'converter', (
    "        for (ls, ordinal), data in groupby(\n                tset.tableFFDataDiscrete, ['limitState', 'ffs_ordinal']):\n"
    "            data = list(data)\n",
    "        for (ls, ordinal), data in groupby(\n                sorted(tset.tableFFDataDiscrete, key=lambda r: r['ffs_ordinal']),\n"
    "                ['limitState', 'ffs_ordinal']):\n"
    "            data = sorted(data, key=lambda r: r['iml'])\n"),
  'a discrete fragility function with levels that are not in the order of their texts, as 9.5 and 10.0',
  'the levels and probabilities are reordered', TRIP + """
node = trip('<fragilityModel format="discrete"><description>d</description><limitStates>a</limitStates>'
    '<ffs noDamageLimit="1.0"><taxonomy>T</taxonomy><IML IMT="PGA" imlUnit="g">9.5 10.0</IML>'
    '<ffd ls="a"><poEs>0.1 0.2</poEs></ffd></ffs></fragilityModel>')
same(node.nodes[-1].nodes[-1].poEs.text.split(), ['0.1', '0.2'])
""", lib=True)

# ------------------------------------------------------------------ C12

ROWS = CM + """
def man(rows, header='stochasticEventSetId,investigationTime', name='m__GmfSet.csv', more=()):
    return cm.CSVManager(cm.MemArchive([(name, header + '\\n' + ''.join(r + '\\n' for r in rows))]
                                       + list(more)), 'm')
def scan(m, *args):
    return [(e.fname, e.rowno, [f for f, _m in e.errorlist]) for e in m.find_invalid(*args)]
"""

B('C12-limit-zero', 'C12', C, (
    "        if limit is None:\n            return list(it)",
    "        if not limit:\n            return list(it)"),
  'a limit of zero', 'all the invalid records are reported', ROWS + """
same(scan(man(['x,1', 'y,2']), 0), [])
""", lib=True)

B('C12-first-field', 'C12', 'record', (
    "            except ValueError as e:\n                errs.append((field.name, str(e)))\n",
    "            except ValueError as e:\n                errs.append((field.name, str(e)))\n"
    "                if not col:  # an empty row\n                    break\n"),
  'a record with an empty mandatory field followed by another invalid one',
  'the other bad fields are not reported', ROWS + """
same(scan(man([',x'])), [('m__GmfSet.csv', 0, ['stochasticEventSetId', 'investigationTime'])])
""", lib=True)

B('C12-header-set', 'C12', C, (
    "                if header != recordtype.fieldnames:\n",
    "                if set(header) != set(recordtype.fieldnames):\n"),
  'a file with its columns in another order', 'the file is accepted with exchanged values', ROWS + """
e = raises(Exception, scan, man(['1,2'], 'investigationTime,stochasticEventSetId'))
ok(isinstance(e, cm.InvalidFile), repr(e))
""", lib=True)

B('C12-header-strip', 'C12', C, (
    "                header = reader.next()\n",
    "                header = [name.strip() for name in reader.next()]\n"),
  'a header with blanks around the names', 'the file is accepted', ROWS + """
e = raises(Exception, scan, man(['1,2'], 'stochasticEventSetId, investigationTime'))
ok(isinstance(e, cm.InvalidFile), repr(e))
""", lib=True)

B('C12-same-row', 'C12', 'record', (
    "    for rowno, rec in enumerate(recorditer):\n        row, exc = rec.cast()\n        if exc:\n",
    "    known = set()\n    for rowno, rec in enumerate(recorditer):\n        row, exc = rec.cast()\n"
    "        if exc and str(exc) not in known:\n            known.add(str(exc))\n"),
  'two invalid records of a file with the same content', 'the second one is not reported', ROWS + """
same([r[1] for r in scan(man(['x,1', '1,1', 'x,1']))], [0, 2])
""", lib=True)

B('C12-class-fname', 'C12', C, (
    "                        invalid.fname = fname\n",
    "                        type(invalid).fname = fname\n"),
  'invalid records in two files', 'all of them are reported with the name of the last file', ROWS + """
m = man(['x,1'], more=[('n__GmfSet.csv', 'stochasticEventSetId,investigationTime\\ny,1\\n')])
same(sorted(r[0] for r in scan(m)), ['m__GmfSet.csv', 'n__GmfSet.csv'])
""", lib=True)

B('C12-blank-rows', 'C12', C, (
    "                    recorditer = man.read(recordtype)\n",
    "                    recorditer = [rec for rec in man.read(recordtype)\n"
    "                                  if any(rec)]  # not blank\n"),
  'a row whose fields are all empty', 'it is not reported and the following row numbers are wrong',
  ROWS + """
same([r[1] for r in scan(man(['1,1', ',', 'x,1']))], [1, 2])
""", lib=True)

B('C12-first-prefix', 'C12', C, (
    "            if not prefix in managers:\n",
    "            if not [p for p in managers if prefix.startswith(p)]:\n"),
  'two models in an archive, the name of one being the start of the other',
  'the second model is not scanned', ROWS + """
m = man(['x,1'], more=[('mx__GmfSet.csv', 'stochasticEventSetId,investigationTime\\ny,1\\n')])
same(sorted(r[0] for r in scan(m)), ['m__GmfSet.csv', 'mx__GmfSet.csv'])
""", lib=True)
