"""MANIFEST.json from the registered checks (sa/props.py) and properties.jsonl"""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa'))
import props
NA = {
 'C50': 'Rounding of intersection points against an absolute epsilon decides it for single-precision coordinates; no sound static bound relates the two for unbounded coordinates (it is in fact false for large ones), and without such a bound a static verdict would be a guess.',
 'C51': 'That the clipped triangles tile the polygon is a theorem about simple polygons (Jordan curve), not a fact about a construct in the source; the source-level half, that each step clips an ear of the remaining polygon, is C16.',
 'C52': 'A relative error bound needs the magnitudes of run-time operands (cancellation in area2, wedge, dot); no bound holds for all inputs, so there is nothing sound to decide statically.',
 'C53': 'The foldability theorems are empty stubs in the source: there is no implementation to analyse.',
 'C54': 'Line::intersect is a stub that returns None for every pair of lines: there is no implementation to analyse.',
}
T = {
 'nf': 'static: value-numbering dataflow over MIR to canonical normal forms, compared with generated normal forms; differing forms are separated by random interpretation before an alarm',
}
def main():
    ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
    checks = []; na = []
    for i in ids:
        if i in props.PROPS:
            tech, note = props.META.get(i, (None, None))
            checks.append({'property': i, 'quick_cmd': 'python3 sa/check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 sa/check.py %s' % i,
                'technique': tech or T['nf'], 'level': 'other', 'level_note': note or props.NOTE})
        else: na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
    json.dump({'version': 1, 'setup_cmd': 'python3 sa/dump.py', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
main()
