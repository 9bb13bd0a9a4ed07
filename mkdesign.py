#!/usr/bin/env python3
"""Regenerate the per-property part and the catch table of DESIGN.md (between the two marker lines)."""
import ast, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TEXT = {
 'C01': ('shadow graph: every node is recomputed from the current base coordinates after every move',
         'staleness needs a history (query, move, query); a test samples one'),
 'C02': ('plain Euclidean arithmetic on floats/rationals; identities (p-q)+q=p, cross/dot/rotate/unit/normal, refusals of P+P and P*N, '
         'a grammar of well- and malformed coordinate lists', 'operators x classes x magnitudes'),
 'C03': ('boxes as pairs of closed intervals: hull, meet, containment, overlap, touching and side decided on integers', 'all relative positions incl. corner and edge contact'),
 'C04': ('exact rational segment intersection / projection', 'touching and huge-coordinate cases only appear by construction'),
 'C05': ('online affine product in plain Python, compared through every point interface after every step', 'order-of-composition errors need >=2 non-commuting steps'),
 'C06': ('inverse of the shadow product; round trips in both directions after every mutator', 'stale caches need query-mutate-query histories'),
 'C07': ('explicit shadow stack of maps; exceptions thrown through with-blocks at random depth', 'needs nesting and faults'),
 'C08': ('deep snapshot of matrix, stack, context before/after; queries completed, abandoned after k items, or blown up at the n-th coordinate access (fault injection)',
         'the interesting paths are the interrupted ones'),
 'C09': ('Bernstein evaluation; split pieces must trace the same curve, refined paths keep outline and kinds', 'for every t and every chain of splits'),
 'C10': ('own Newton/subdivision crossing finder plus planted transversal crossings; every reported point re-evaluated on both curves', 'completeness cannot be sampled by fixed examples'),
 'C11': ('Green-theorem area, arc length, coverage and crossing multiplicity of the pieces versus the original outline', 'global graph construction with many topologies'),
 'C12': ('image under the reference affine map of the original outline, in model space and through a drawing matrix', 'all kinds x all maps x nesting'),
 'C13': ('independent flattening walk (name, leaf, accumulated map) versus seven views of the model', 'agreement of views over arbitrary trees'),
 'C14': ('boxes recomputed from sampled outlines; enclosure of every drawn point; reported box is tight where documented', 'all shapes x transforms, after in-place edits'),
 'C15': ('snapshots of all sides of a copy/restore history after each edit of one side', 'aliasing shows only after an edit of one particular part'),
 'C16': ('text evaluated in its documented namespace; deep snapshot, equality, outline, re-dumped text compared', 'hostile names/numbers/structures'),
 'C17': ('shadow ordered map per group; names, tables, dotted lookups, iteration order after each edit incl. refused ones', 'invariant over editing histories'),
 'C18': ('painter model (winding numbers, layers, alpha, hole rules) predicts probe pixels away from outlines', 'pixels over random models and matrices'),
 'C19': ('closed form of (t, original, current target) after random update histories', 'history independence'),
 'C20': ('interpolation of independently equalised outlines; expected model tables after each update incl. hidden times and restore', 'source/target structure x update history'),
 'C21': ('documented formula in `math`, repeated and out-of-range times', 'all times and parameters'),
 'C22': ('logged draw calls, frame-by-frame painter model, twin model drawn separately', 'frame counts/times/boxes over settings'),
 'C23': ('plain-Python bilinear blend and derived fields; node/edge/cell look-ups', 'rectangular/asymmetric meshes'),
 'C24': ('images of the three points in plain Python and the smoothness rule', 'kinds x handle degeneracies x maps'),
 'C25': ('distance and side of the offset outline measured against the original', 'both orientations, reflections, limits'),
 'C26': ('analytic shape equation at sampled outline points', 'all boxes and radii incl. degenerate/half-side radii'),
 'C27': ('analytic circle/arc, bulge formula, path maps', 'angle wrap-arounds, directions, sides'),
 'C28': ('own resolution table of style spellings; replaced styles watched for changes', 'spelling combinations and histories'),
 'C29': ('purity: whole operand pool snapshot before/after each of ~230 operations; results spoiled and the operation repeated', 'aliasing between results and operands'),
 'C30': ('tolerance rule per coordinate; recorded data across simulated test runs', 'near-tolerance differences of every coordinate'),
 'C31': ('artists read back from the shown figure (line data, markers, colours, labels, arrows) against cubics, functions and vectors written out in plain Python',
         'any number of curves, segments, functions and nodes'),
}
CONST = {}
def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and getattr(node.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'REQUIRED', 'KINDS', 'TECHNIQUE'):
            n = node.targets[0].id
            out[n] = [(e.elts[0].id, [ast.unparse(x) for x in e.elts[1:]]) for e in node.value.elts] if n == 'KINDS' else ast.literal_eval(node.value)
    return out
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
lines = []
for p in props:
    pid = p['id']
    c = consts(os.path.join(HERE, 'props', pid.lower() + '.py'))
    oracle, why = TEXT.get(pid, ('see module docstring', 'universally quantified'))
    lines += ['### %s %s' % (pid, p['title']), '',
              '*Workload.* ' + c['RULE'], '',
              '*Oracle.* ' + oracle + '.  *Why tests cannot settle it:* ' + why + '.', '',
              '*Bounds.* seeded cases quick/thorough: ' + ', '.join('%s %s' % (k, '/'.join(n)) for k, n in c['KINDS']) + '.  ' +
              ('Outside/assumed: ' + '; '.join(c['ASSUMPTIONS']) + '.' if c.get('ASSUMPTIONS') else 'No domain restrictions beyond finite numbers.'), '',
              '*Monitors that must fire (minimum events, else inconclusive).* ' + ', '.join('%s>=%s' % kv for kv in sorted(c['REQUIRED'].items())) + '.', '']
lines += ['## Planted bugs and the checks that catch them', '',
          'Each is caught by the check of its own property (`recheck` of all of them after every change of the generators).', '',
          '| planted bug | property | needs |', '|---|---|---|']
sd = os.path.join(HERE, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    lines.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
a, b = '<!-- generated by mkdesign.py -->\n', '<!-- end of generated part -->\n'
head, rest = s.split(a)
tail = rest.split(b)[1]
open(path, 'w').write(head + a + '\n' + '\n'.join(lines) + '\n' + b + tail)
