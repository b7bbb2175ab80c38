# Enumeration of branch sets
LT = 'logictree'

KIT = r'''
from decimal import Decimal as D
from openquake.commonlib import logictree as lt
def bset(*branches):
    bs = lt.BranchSet('maxMagGRRelative', {})
    for ident, weight in branches:
        bs.branches.append(lt.Branch(ident, D(weight), 0.5))
    return bs
def attach(bs, child, *ids):
    for b in bs.branches:
        if b.branch_id in ids:
            b.child_branchset = child
    return bs
def ids(paths):
    return [''.join(b.branch_id for b in p) for _w, p in paths]
def tree():
    return attach(bset(('a', '0.5'), ('b', '0.5')), bset(('c', '0.25'), ('d', '0.75')), 'a', 'b')
'''
ENUM = ("            path = [prefix_path, branch]\n"
        "            if branch.child_branchset is not None:\n"
        "                for subpath in branch.child_branchset._enumerate_paths(path):\n"
        "                    yield subpath\n"
        "            else:\n"
        "                yield path\n")
FLAT = ("        for path in self._enumerate_paths([]):\n"
        "            flat_path = []\n"
        "            weight = Decimal('1.0')\n"
        "            while path:\n"
        "                path, branch = path\n"
        "                weight *= branch.weight\n"
        "                flat_path.append(branch)\n"
        "            yield weight, flat_path[::-1]\n")

B('C24-one-list', 'C24', LT, [
    (FLAT,
     "        for path in self._enumerate_paths([]):\n"
     "            weight = Decimal('1.0')\n"
     "            for branch in path:\n"
     "                weight *= branch.weight\n"
     "            yield weight, path\n"),
    (ENUM,
     "            prefix_path.append(branch)\n"
     "            if branch.child_branchset is not None:\n"
     "                for subpath in branch.child_branchset._enumerate_paths(\n"
     "                        prefix_path):\n"
     "                    yield subpath\n"
     "            else:\n"
     "                yield prefix_path\n"
     "            prefix_path.pop()\n")],
  'paths that are kept while the enumeration goes on, or changed by the caller',
  'all the paths are one list that is empty at the end', KIT + '''
same(ids(list(tree().enumerate_paths())), ['ac', 'ad', 'bc', 'bd'], 'paths')
''', lib=True)

B('C24-kept-paths', 'C24', LT, (
    FLAT,
    "        if not hasattr(self, '_paths'):\n"
    "            self._paths = []\n"
    "            for path in self._enumerate_paths([]):\n"
    "                flat_path = []\n"
    "                weight = Decimal('1.0')\n"
    "                while path:\n"
    "                    path, branch = path\n"
    "                    weight *= branch.weight\n"
    "                    flat_path.append(branch)\n"
    "                self._paths.append((weight, flat_path[::-1]))\n"
    "        for weight, path in self._paths:\n"
    "            yield weight, path[:]\n"),
  'a tree that is changed between two enumerations, or enumerated by two threads',
  'the second enumeration gives the old paths', KIT + '''
t = bset(('a', '1.0'))
ids(t.enumerate_paths())
attach(t, bset(('c', '1.0')), 'a')
same(ids(t.enumerate_paths()), ['ac'], 'paths')
''', lib=True)

B('C24-position-in-set', 'C24', LT, (
    "        for branch in self.branches:\n            path = [prefix_path, branch]\n",
    "        self._position = 0\n"
    "        while self._position < len(self.branches):\n"
    "            branch = self.branches[self._position]\n"
    "            self._position += 1\n"
    "            path = [prefix_path, branch]\n"),
  'two enumerations of one tree interleaved',
  'each skips the paths that the other one gives', KIT + '''
t = bset(('a', '0.25'), ('b', '0.25'), ('c', '0.5'))
x, y = t.enumerate_paths(), t.enumerate_paths()
got = [x.next()]
y.next()
y.next()
same(ids(got + list(x)), ['a', 'b', 'c'], 'paths')
''', lib=True)

B('C24-no-zeros', 'C24', LT, (
    "            if branch.child_branchset is not None:\n"
    "                for subpath in branch.child_branchset._enumerate_paths(path):\n",
    "            if not branch.weight:\n"
    "                continue\n"
    "            if branch.child_branchset is not None:\n"
    "                for subpath in branch.child_branchset._enumerate_paths(path):\n"),
  'a branch of weight zero', 'its paths are not enumerated', KIT + '''
same(ids(bset(('a', '0.0'), ('b', '1.0')).enumerate_paths()), ['a', 'b'], 'paths')
''', lib=True)

B('C24-set-once', 'C24', LT, [
    ("        for path in self._enumerate_paths([]):\n",
     "        for path in self._enumerate_paths([], set()):\n"),
    ("    def _enumerate_paths(self, prefix_path):\n",
     "    def _enumerate_paths(self, prefix_path, open_sets):\n"),
    (ENUM,
     "            path = [prefix_path, branch]\n"
     "            child = branch.child_branchset\n"
     "            if child is not None and child not in open_sets:\n"
     "                open_sets.add(child)\n"
     "                for subpath in child._enumerate_paths(path, open_sets):\n"
     "                    yield subpath\n"
     "            else:\n"
     "                yield path\n")],
  'a branch set below two branches', 'only the first gets its branches', KIT + '''
same(ids(tree().enumerate_paths()), ['ac', 'ad', 'bc', 'bd'], 'paths')
''', lib=True)

B('C24-rounded', 'C24', LT, (
    "            yield weight, flat_path[::-1]\n",
    "            yield weight.quantize(Decimal('0.0001')), flat_path[::-1]\n"),
  'paths with small weights', 'their weights are rounded', KIT + '''
t = attach(bset(('a', '0.001'), ('b', '0.999')), bset(('c', '0.333'), ('d', '0.667')), 'a', 'b')
same([w for w, _p in t.enumerate_paths()],
     [D('0.000333'), D('0.000667'), D('0.332667'), D('0.666333')], 'weights')
''', lib=True)

B('C24-by-id', 'C24', LT, (
    "            while path:\n"
    "                path, branch = path\n"
    "                weight *= branch.weight\n"
    "                flat_path.append(branch)\n",
    "            seen = set()\n"
    "            while path:\n"
    "                path, branch = path\n"
    "                weight *= branch.weight\n"
    "                if branch.branch_id not in seen:\n"
    "                    flat_path.append(branch)\n"
    "                seen.add(branch.branch_id)\n"),
  'branch sets with branches of the same id on one path',
  'a branch is missing in the path', KIT + '''
t = attach(bset(('a', '1.0')), bset(('a', '0.5'), ('b', '0.5')), 'a')
same(ids(t.enumerate_paths()), ['aa', 'ab'], 'paths')
''', lib=True)

B('C24-shared-prefix', 'C24', LT, [
    (FLAT,
     "        for path in self._enumerate_paths([]):\n"
     "            weight = Decimal('1.0')\n"
     "            for branch in path:\n"
     "                weight *= branch.weight\n"
     "            yield weight, path\n"),
    (ENUM,
     "            if branch.child_branchset is None:\n"
     "                prefix_path[len(prefix_path):] = [branch]\n"
     "                yield prefix_path\n"
     "                del prefix_path[-1]\n"
     "                continue\n"
     "            for subpath in branch.child_branchset._enumerate_paths(\n"
     "                    prefix_path + [branch]):\n"
     "                yield subpath\n")],
  'a caller that changes the list of a path it got',
  'the next path has what the caller did to the last', KIT + '''
got = []
for _w, p in tree().enumerate_paths():
    got.append(''.join(b.branch_id for b in p))
    p.reverse()
same(got, ['ac', 'ad', 'bc', 'bd'], 'paths')
''', lib=True)
