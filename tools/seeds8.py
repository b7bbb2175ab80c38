# Table sets made of models
V = 'converter'
R = 'record'

SETS = r'''
import openquake.commonlib.csvmanager as cm
conv, rs = cm.converter, cm.records
def parse(body, name='m'):
    d = scratch()
    put('%s/%s.xml' % (d, name), NRML % body)
    return cm.node_from_nrml('%s/%s.xml' % (d, name))[0]
def tset(body):
    return conv.Converter.from_node(parse(body)).tableset
def rows(table):
    return [[str(x) for x in r] for r in table]
def vset(i, imt, imls, *funs):
    return ('<discreteVulnerabilitySet vulnerabilitySetID="%s" assetCategory="population" '
            'lossCategory="x"><IML IMT="%s">%s</IML>%s</discreteVulnerabilitySet>' % (
        i, imt, imls, ''.join('<discreteVulnerability vulnerabilityFunctionID="%s" '
        'probabilisticDistribution="LN"><lossRatio>%s</lossRatio><coefficientsVariation>%s'
        '</coefficientsVariation></discreteVulnerability>' % f for f in funs)))
def vuln(*sets):
    return '<vulnerabilityModel>%s</vulnerabilityModel>' % ''.join(sets)
VULN = vuln(vset('A', 'PGA', '0.1 0.2', ('F', '0.1 0.2', '0.1 0.1'), ('G', '0.3 0.4', '0 0')))
FRAG = ("""<fragilityModel format="discrete"><description>d</description><limitStates>slight complete
</limitStates><ffs noDamageLimit="0.05"><taxonomy>RC</taxonomy><IML IMT="PGA" imlUnit="g">0.1 0.2</IML>
<ffd ls="slight"><poEs>0.2 0.3</poEs></ffd><ffd ls="complete"><poEs>0.1 0.2</poEs></ffd></ffs>
</fragilityModel>""")
EXPO = """<exposureModel id="e" category="population" taxonomySource="t"><description>d</description>
<assets>%s</assets></exposureModel>"""
ASSET = """<asset id="%s" taxonomy="RC" number="1"><location lon="%s" lat="%s"/>%s</asset>"""
OCC = '<occupancies><occupancy period="day" occupants="5"/></occupancies>'
GMFS = """<gmfCollection sourceModelTreePath="a" gsimTreePath="b">%s</gmfCollection>"""
GSET = '<gmfSet stochasticEventSetId="%s" investigationTime="50">%s</gmfSet>'
GMF = '<gmf IMT="%s" ruptureId="%s"><node gmv="0.1" lon="0" lat="0"/></gmf>'
def find(node, name):
    return [n for n in node.nodes if n.tag == name]
'''

B('C33-nodes-kept', 'C33', R, (
    "    return collections.OrderedDict(\n        (rec.pkey, rec.to_node()) for rec in records)\n",
    "    nodes = collections.OrderedDict()\n    for rec in records:\n"
    "        if not hasattr(rec, 'node'):\n            rec.node = rec.to_node()\n"
    "        nodes[rec.pkey] = rec.node\n    return nodes\n"),
  'a table set converted into a node twice', 'the second model has everything twice', SETS + '''
t = tset(VULN)
t.to_node()
node = t.to_node()
same(len(find(node.nodes[0], 'discreteVulnerability')), 2)
''', lib=True)

B('C33-node-once', 'C33', R, [
    ("        self.convertertype = convertertype\n        self.name = convertertype.__name__\n",
     "        self.convertertype = convertertype\n        self.node = None\n"
     "        self.name = convertertype.__name__\n"),
    ("        return self.convertertype(self).to_node()\n",
     "        if self.node is None:\n            self.node = self.convertertype(self).to_node()\n"
     "        return self.node\n")],
  'a table set edited after it was converted into a node', 'the edits are not in later nodes',
  SETS + '''
t = tset(VULN)
t.to_node()
t.tableDiscreteVulnerabilityData[0]['lossRatio'] = '0.5'
same(t.to_node().nodes[0].discreteVulnerability.lossRatio.text, '0.5 0.2')
''', lib=True)

B('C33-sorted-states', 'C33', V, (
    "        for ls in limitStates:\n            yield records.FFLimitStateDiscrete(ls)\n",
    "        for ls in sorted(limitStates):\n            yield records.FFLimitStateDiscrete(ls)\n"),
  'a discrete fragility model whose limit states are not in alphabetical order',
  'the limit states of the table are in another order than in the model', SETS + '''
same(rows(tset(FRAG).tableFFLimitStateDiscrete), [['slight'], ['complete']])
''', lib=True)

B('C33-gmf-per-measure', 'C33', V, [
    ("            yield records.GmfSet(ses_id, gmfset['investigationTime'])\n",
     "            yield records.GmfSet(ses_id, gmfset['investigationTime'])\n            measures = set()\n"),
    ("                yield records.Gmf(ses_id, imt, rup)\n",
     "                if imt not in measures:\n                    measures.add(imt)\n"
     "                    yield records.Gmf(ses_id, imt, rup)\n")],
  'a stochastic event set with fields of two ruptures for the same intensity measure',
  'there is no Gmf record for the second one', SETS + '''
t = tset(GMFS % (GSET % ('1', GMF % ('PGA', 'r1') + GMF % ('PGA', 'r2'))))
same(rows(t.tableGmf), [['1', 'PGA', 'r1'], ['1', 'PGA', 'r2']])
''', lib=True)

B('C33-shared-levels', 'C33', V, [
    ("            imls = vset.IML.text.split()\n            for vf in vset.getnodes('discreteVulnerability'):\n",
     "            cls.imls = vset.IML.text.split()\n"
     "            for vf in vset.getnodes('discreteVulnerability'):\n"),
    ("                for iml, ratio, coeff in zip(imls, ratios, coeffs):\n",
     "                for iml, ratio, coeff in zip(cls.imls, ratios, coeffs):\n")],
  'two vulnerability models converted record by record in turns',
  'functions of one model get the levels of the other one', SETS + '''
a = parse(VULN)
b = parse(vuln(vset('B', 'PGA', '7 8', ('F', '0.1 0.2', '0.1 0.1'), ('G', '0.3 0.4', '0 0'))))
i, j = conv.Vulnerability.node_to_records(a), conv.Vulnerability.node_to_records(b)
out = []
for k in range(7):
    out.append(i.next())
    j.next()
same([r[2] for r in out if type(r) is rs.DiscreteVulnerabilityData], ['0.1', '0.2', '0.1', '0.2'])
''', lib=True)

B('C33-shared-ordinal', 'C33', V, [
    ("        for i, ffs in enumerate(node.getnodes('ffs'), 1):\n"
     "            ffs_ordinal = str(i)  # there is a ffs for each taxonomy\n",
     "        for i, ffs in enumerate(node.getnodes('ffs'), 1):\n"
     "            cls.ordinal = str(i)  # there is a ffs for each taxonomy\n"),
    ("            yield records.FFSetDiscrete(\n                ffs_ordinal,\n",
     "            yield records.FFSetDiscrete(\n                cls.ordinal,\n"),
    ("                    yield records.FFDataDiscrete(ls, ffs_ordinal, iml, poe)\n",
     "                    yield records.FFDataDiscrete(ls, cls.ordinal, iml, poe)\n")],
  'two fragility models converted record by record in turns',
  'data refer to another or a missing set of functions', SETS + '''
two = FRAG.replace('</fragilityModel>', FRAG[FRAG.index('<ffs'):])
i, j = [conv.FragilityDiscrete.node_to_records(parse(two)) for _ in range(2)]
got = []
for rec in i:
    got.append(rec)
    if len(got) == 6:
        list(j)
same([r[1] for r in got if type(r) is rs.FFDataDiscrete], ['1'] * 4 + ['2'] * 4)
''', lib=True)

B('C33-consumed-limit', 'C33', V, (
    "                ffs.taxonomy.text.strip(),\n                ffs.attrib.get('noDamageLimit', ''),\n"
    "                ffs.IML['IMT'],\n                ffs.IML['imlUnit'])\n"
    "            for ls, ffd in",
    "                ffs.taxonomy.text.strip(),\n                ffs.attrib.pop('noDamageLimit', ''),\n"
    "                ffs.IML['IMT'],\n                ffs.IML['imlUnit'])\n"
    "            for ls, ffd in"),
  'a discrete fragility model with a no-damage limit, converted twice or used afterwards',
  'the limit is removed from the node', SETS + '''
node = parse(FRAG)
conv.Converter.from_node(node)
same(node.ffs.attrib, {'noDamageLimit': '0.05'})
''', lib=True)

B('C33-known-periods', 'C33', V, (
    "        periods = sorted(set(occ.period for occ in t.tableOccupancy))\n",
    "        periods = t.tableOccupancy.attr.get('periods')\n        if periods is None:\n"
    "            periods = t.tableOccupancy.attr['periods'] = sorted(\n"
    "                set(occ.period for occ in t.tableOccupancy))\n"),
  'an occupancy for a new period, inserted after the table set was converted into a node',
  'it is missing from the next node', SETS + '''
t = tset(EXPO % (ASSET % ('a', '1', '2', OCC)))
list(t.to_node().assets)
t.insert(rs.Occupancy('a', 'night', '7'))
[asset] = list(t.to_node().assets)
same([o['period'] for o in asset.occupancies], ['day', 'night'])
''', lib=True)

B('C33-rounded-places', 'C33', V, [
    ("            loc = asset.location['lon'], asset.location['lat']\n",
     "            loc = asset.location['lon'], asset.location['lat']\n"
     "            place = '%.5f %.5f' % tuple(map(float, loc))\n"),
    ("                loc_id = locations[loc]\n", "                loc_id = locations[place]\n"),
    ("                loc_id = locations[loc] = str(loc_counter.next())\n",
     "                loc_id = locations[place] = str(loc_counter.next())\n")],
  'two assets less than a meter apart', 'they are in the same place then', SETS + '''
t = tset(EXPO % (ASSET % ('a', '1.000001', '2', '') + ASSET % ('b', '1.000002', '2', '')))
same([r[1] for r in rows(t.tableLocation)], ['1.000001', '1.000002'])
''', lib=True)

B('C33-last-checked', 'C33', V, [
    ("            # check that we can instantiate a VulnerabilityFunction in risklib\n"
     "            scientific.VulnerabilityFunction(\n"
     "                imt, map(float, imls), map(float, ratios), map(float, coeffs))\n\n", ""),
    ("            dvs_node[(set_id,)].IML.text = ' '.join(imls)\n",
     "            dvs_node[(set_id,)].IML.text = ' '.join(imls)\n\n"
     "        # check that we can instantiate a VulnerabilityFunction in risklib\n"
     "        scientific.VulnerabilityFunction(\n"
     "            imt, map(float, imls), map(float, ratios), map(float, coeffs))\n")],
  'a vulnerability function before the last one that the risk library rejects',
  'a model is made of it', SETS + '''
t = tset(vuln(vset('A', 'PGA', '0.1 0.2', ('F', '0 0.2', '0.5 0.1'), ('G', '0.3 0.4', '0 0'))))
try:
    res = t.to_node().tag
except Exception:
    res = 'refused'
same(res, 'refused')
''', lib=True)

B('C33-all-tables', 'C33', R, (
    "        for table in self.tables:\n            if len(table):\n                yield table\n",
    "        for table in self.tables:\n            if len(table) or table.ordinal:\n                yield table\n"),
  'a table set with an empty table that is not the first one', 'it is among the filled ones', SETS + '''
t = tset(EXPO % (ASSET % ('a', '1', '2', '')))
same([x.recordtype.__name__ for x in t], ['Location', 'Exposure', 'Asset'])
''', lib=True)

B('C33-shared-tables', 'C33', R, [
    ("        self.tables = tables or [\n            Table(rt, [], ordinal)\n"
     "            for ordinal, rt in enumerate(convertertype.recordtypes())]\n",
     "        if not tables:\n            # reuse the tables of the last set if still empty\n"
     "            tables = self.EMPTY.get(convertertype) or []\n"
     "        if not tables or any(map(len, tables)):\n"
     "            tables = self.EMPTY[convertertype] = [\n"
     "                Table(rt, [], ordinal) for ordinal, rt in enumerate(\n"
     "                    convertertype.recordtypes())]\n"
     "        self.tables = tables\n"),
    ("    A set of tables associated to the same converter\n    \"\"\"\n",
     "    A set of tables associated to the same converter\n    \"\"\"\n    EMPTY = {}\n\n")],
  'two table sets of the same kind created before the first one is filled',
  'both have the same tables', SETS + '''
a, b = cm.record.TableSet(conv.Exposure), cm.record.TableSet(conv.Exposure)
a.insert(rs.Location('1', '2', '3'))
same(rows(b.tableLocation), [])
''', lib=True)

B('C33-shared-dicts', 'C33', V, [
    ("        loc_dict = record.nodedict(self.tableset.tableLocation)\n"
     "        cost_dict = record.nodedict(self.tableset.tableCost)\n",
     "        Exposure.loc_dict = record.nodedict(self.tableset.tableLocation)\n"
     "        cost_dict = record.nodedict(self.tableset.tableCost)\n"),
    ("            location = loc_dict[(asset['location_id'],)]\n",
     "            location = Exposure.loc_dict[(asset['location_id'],)]\n")],
  'the assets of two exposures taken in turns', 'assets are moved to the places of the other one', SETS + '''
a, b = [tset(EXPO % (ASSET % ('a', x, '2', '') + ASSET % ('b', x, '3', ''))).to_node()
        for x in ('1', '9')]
i, j = iter(a.assets), iter(b.assets)
one = [i.next().location['lon']]
j.next()
same(one + [i.next().location['lon']], ['1', '1'])
''', lib=True)

