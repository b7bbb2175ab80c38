# Risk models
RL = 'riskloaders'

KIT = r'''
from openquake.commonlib import riskloaders as r
D = scratch()
def vfile(name, *sets):
    return put('%s/%s.xml' % (D, name), VULN % ''.join(sets))
def f(t, ratio='0.5', cov='0.0'):
    return (t, ratio, cov)
def ratios(models):
    return dict((t, dict((k, v.mean_loss_ratios) for k, v in
                         m.workflow.vulnerability_functions.items())) for t, m in models.items())
def ffile(*ffs, **kw):
    return put('%s/%s.xml' % (D, kw.get('name', 'f')), NRML % (
        "<fragilityModel format='discrete'><description>d</description><limitStates>%s"
        "</limitStates>\n%s</fragilityModel>" % (kw.get('states', 'a b'), ''.join(
            "<ffs%s><taxonomy>%s</taxonomy><IML IMT='%s' imlUnit='g'>1.0 2.0</IML>%s</ffs>\n" % (
                '' if ndl is None else " noDamageLimit='%s'" % ndl, t, imt,
                ''.join("<ffd ls='x'><poEs>%s</poEs></ffd>" % p for p in ('0.1 0.2', '0.3 0.4')))
            for t, imt, ndl in ffs))))
def damage(fname):
    states, models = r.get_damage_states_and_risk_models(fname)
    return states, dict((t, m.workflow.fragility_functions['damage'])
                        for t, m in models.items())
def broken(fn, *args):
    try:
        fn(*args)
    except Exception as e:
        return type(e).__name__
    return 'accepted'
'''

B('C28-cached-file', 'C28', RL, [
    ("def _get_vulnerability_functions(vulnerability_file):\n",
     "_FUNCTIONS = {}\n\n\ndef _get_vulnerability_functions(vulnerability_file):\n"),
    ("    vfs = {}\n    for record",
     "    if vulnerability_file in _FUNCTIONS:\n"
     "        return _FUNCTIONS[vulnerability_file]\n    vfs = {}\n    for record"),
    ("    return vfs\n\n\ndef get_taxonomy_vfs",
     "    _FUNCTIONS[vulnerability_file] = vfs\n    return vfs\n\n\ndef get_taxonomy_vfs")],
  'a vulnerability file changed between two loads', 'the old functions are used', KIT + '''
ins = dict(structural_vulnerability=vfile('v', vset('s', 'PGA', '1.0', f('RC', '0.5'))))
r.get_risk_models(ins, ['structural'])
vfile('v', vset('s', 'PGA', '1.0', f('RC', '0.25')))
same(ratios(r.get_risk_models(ins, ['structural'])), {'RC': {'structural': [0.25]}}, 'models')
''', lib=True)

B('C28-shared-collection', 'C28', RL, [
    ("def get_taxonomy_vfs(inputs",
     "_BY_TAXONOMY = collections.defaultdict(list)\n\n\ndef get_taxonomy_vfs(inputs"),
    ("    vulnerability_functions = collections.defaultdict(list)\n",
     "    vulnerability_functions = _BY_TAXONOMY\n    vulnerability_functions.clear()\n"),
    ("    for taxonomy in vulnerability_functions:\n",
     "    for taxonomy in list(vulnerability_functions):\n")],
  'a lazy reading of functions interleaved with another load',
  'it goes on with the functions of the other', KIT + '''
a = dict(structural_vulnerability=vfile('a', vset('s', 'PGA', '1.0', f('RC'), f('W'))))
b = dict(structural_vulnerability=vfile('b', vset('s', 'PGA', '1.0', f('RC', '0.25'),
                                                  f('W', '0.25'))))
it = r.get_taxonomy_vfs(a, ['structural'])
it.next()
r.get_risk_models(b, ['structural'])
same([d['structural'].mean_loss_ratios for _t, d in it], [[0.5]], 'the others')
''', lib=True)

B('C28-retrofitted-occupants', 'C28', RL, (
    "        key = '%s_vulnerability%s' % (loss_type_to_cost_type(loss_type), retro)\n",
    "        cost_type = loss_type if retro else loss_type_to_cost_type(loss_type)\n"
    "        key = '%s_vulnerability%s' % (cost_type, retro)\n"),
  'retrofitted functions for fatalities', 'they are not found', KIT + '''
ins = dict(occupants_vulnerability_retrofitted=vfile('v', vset('s', 'PGA', '1.0', f('RC'))))
same(ratios(r.get_risk_models(ins, ['fatalities'], False, True)), {'RC': {'fatalities': [0.5]}},
     'models')
''', lib=True)

B('C28-limit-zero', 'C28', RL, (
    "            if no_damage_limit is None:\n", "            if not no_damage_limit:\n"),
  'a fragility function with a no-damage limit of zero', 'the limit is lost', KIT + '''
s, d = damage(ffile(('RC', 'PGA', 0.0)))
same([x.imls for x in d['RC']], [[0.0, 1.0, 2.0]] * 2, 'levels')
''', lib=True)

B('C28-levels-extended', 'C28', RL, (
    "                fragility_functions[taxonomy] = [\n"
    "                    scientific.FragilityFunctionDiscrete(\n"
    "                        [no_damage_limit] + iml['imls'], [0.0] + poes,\n"
    "                        no_damage_limit)\n"
    "                    for poes in params]\n",
    "                imls = iml['imls']\n"
    "                imls.insert(0, no_damage_limit)\n"
    "                no_damage_limit = min(imls)\n"
    "                fragility_functions[taxonomy] = [\n"
    "                    scientific.FragilityFunctionDiscrete(\n"
    "                        sorted(set(imls)), ([0.0] + poes)[:len(set(imls))],\n"
    "                        no_damage_limit)\n"
    "                    for poes in params]\n"),
  'a no-damage limit that is one of the levels of the function', 'levels and probabilities are lost',
  KIT + '''
s, d = damage(ffile(('RC', 'PGA', 1.0)))
same([(x.imls, x.poes) for x in d['RC']], [([1.0, 1.0, 2.0], [0.0, 0.1, 0.2]),
                                           ([1.0, 1.0, 2.0], [0.0, 0.3, 0.4])], 'functions')
''', lib=True)

B('C28-imt-of-last', 'C28', RL, (
    "        dic = dict(damage=List(ffs, imt=tax_imt[taxonomy]))\n",
    "        dic = dict(damage=List(ffs, imt=iml['IMT']))\n"),
  'a fragility model with several intensity measure types',
  'all functions get the one of the last in the file', KIT + '''
s, d = damage(ffile(('RC', 'PGA', None), ('W', 'MMI', None)))
same([d[t].imt for t in ('RC', 'W')], ['PGA', 'MMI'], 'types')
''', lib=True)

B('C28-insured-retrofitted', 'C28', RL, (
    "            inputs, loss_types, retrofitted):\n",
    "            inputs, loss_types, insured_losses or retrofitted):\n"),
  'insured losses without retrofitting', 'the functions of the retrofitted files are taken', KIT + '''
ins = dict(structural_vulnerability=vfile('v', vset('s', 'PGA', '1.0', f('RC'))),
           structural_vulnerability_retrofitted=vfile('w', vset('s', 'PGA', '1.0', f('RC', '0.25'))))
same(ratios(r.get_risk_models(ins, ['structural'], True)), {'RC': {'structural': [0.5]}}, 'models')
''', lib=True)

B('C28-duplicate-other-imt', 'C28', RL, (
    "        if taxonomy in vfs:\n", "        if taxonomy in vfs and vfs[taxonomy].imt == imt:\n"),
  'a taxonomy with functions of two intensity measure types in a file',
  'the first function is silently replaced', KIT + '''
ins = dict(structural_vulnerability=vfile('v', vset('s', 'PGA', '1.0', f('RC')),
                                          vset('t', 'MMI', '1.0', f('RC'))))
same(broken(r.get_risk_models, ins, ['structural']), 'ValueError', 'duplicate')
''', lib=True)

B('C28-until-missing', 'C28', RL, (
    "        if key not in inputs:\n            continue\n",
    "        if key not in inputs:\n            break\n"),
  'a loss type without file before one that has a file', 'the later loss types are lost', KIT + '''
ins = dict(contents_vulnerability=vfile('v', vset('s', 'PGA', '1.0', f('RC'))))
same(ratios(r.get_risk_models(ins, ['structural', 'contents'])), {'RC': {'contents': [0.5]}},
     'models')
''', lib=True)

B('C28-inputs-taken', 'C28', RL, [
    ("        for tax, vf in _get_vulnerability_functions(inputs[key]).iteritems():\n",
     "        for tax, vf in _get_vulnerability_functions(\n"
     "                inputs.pop(key)).iteritems():\n")],
  'a second calculation with the same inputs', 'its functions are lost', KIT + '''
ins = dict(structural_vulnerability=vfile('v', vset('s', 'PGA', '1.0', f('RC'))))
same([sorted(r.get_risk_models(ins, ['structural'])) for _ in range(2)], [['RC'], ['RC']], 'models')
''', lib=True)

B('C28-left-by-failure', 'C28', RL, [
    ("def get_damage_states_and_risk_models(content):\n",
     "_FRAGILITY = collections.defaultdict(dict)\n\n\n"
     "def get_damage_states_and_risk_models(content):\n"),
    ("    fragility_functions = collections.defaultdict(dict)\n",
     "    fragility_functions = _FRAGILITY\n"),
    ("            taxonomy, workflows.Damage(dic))\n",
     "            taxonomy, workflows.Damage(dic))\n    _FRAGILITY.clear()\n"),
    ("    tax_imt = dict()\n", "    tax_imt = collections.defaultdict(str)\n")],
  'a fragility model loaded after another one failed',
  'it has the functions read before the failure, too', KIT + '''
p = ffile(('RC', 'PGA', None), ('W', 'PGA', None), name='bad')
put(p, get(p).replace('0.3 0.4', '0.3').replace('0.3<', '0.3 0.4<', 1))
broken(damage, p)
same(sorted(damage(ffile(('A', 'PGA', None)))[1]), ['A'], 'taxonomies')
''', lib=True)

B('C28-type-of-class', 'C28', RL, (
    "        vars(self).update(attrs)\n",
    "        for name, value in attrs.items():\n"
    "            setattr(self.__class__, name, value)\n"),
  'two fragility functions with different intensity measure types',
  'the functions made first get the type of the later ones', KIT + '''
a = damage(ffile(('RC', 'PGA', None)))[1]
b = damage(ffile(('W', 'MMI', None), name='g'))[1]
same(a['RC'].imt, 'PGA', 'type')
''', lib=True)

B('C28-states-twice', 'C28', RL, [
    ("def get_damage_states_and_risk_models(content):\n",
     "_NO_DAMAGE = ['no_damage']\n\n\ndef get_damage_states_and_risk_models(content):\n"),
    ("    damage_states = ['no_damage'] + limit_states\n",
     "    damage_states = _NO_DAMAGE\n    damage_states[1:] = limit_states\n")],
  'two fragility models with different limit states',
  'the damage states of the first become those of the second', KIT + '''
a = damage(ffile(('RC', 'PGA', None)))[0]
damage(ffile(('RC', 'PGA', None), name='g', states='c d'))
same(a, ['no_damage', 'a', 'b'], 'states')
''', lib=True)

B('C28-blames-last', 'C28', RL, [
    ("    for record in parsers.VulnerabilityModelParser(vulnerability_file):\n"
     "        taxonomy = record['ID']\n",
     "    records = []\n"
     "    for record in parsers.VulnerabilityModelParser(vulnerability_file):\n"
     "        taxonomy = record['ID']\n"),
    ("        imt = record['IMT']\n        loss_ratios = record['lossRatio']\n"
     "        covs = record['coefficientsVariation']\n"
     "        distribution = record['probabilisticDistribution']\n\n", ""),
    ("        if taxonomy in vfs:\n", "        if any(r['ID'] == taxonomy for r in records):\n"),
    ("        try:\n            vfs[taxonomy] = scientific.VulnerabilityFunction(\n"
     "                imt, record['IML'], loss_ratios, covs, distribution)\n",
     "        records.append(record)\n    for record in records:\n"
     "        try:\n            vfs[record['ID']] = scientific.VulnerabilityFunction(\n"
     "                record['IMT'], record['IML'], record['lossRatio'],\n"
     "                record['coefficientsVariation'],\n"
     "                record['probabilisticDistribution'])\n")],
  'an invalid function that is not the last of the file', 'the error names another taxonomy', KIT + '''
ins = dict(structural_vulnerability=vfile('v', vset('s', 'PGA', '1.0', f('RC', '0.5 0.6', '0 0'), f('W'))))
e = raises(ValueError, r.get_risk_models, ins, ['structural'])
ok("'RC'" in str(e) and "'W'" not in str(e), e)
''', lib=True)
