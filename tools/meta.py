#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a property is emitted once props/<id>.py exists
or it is listed in NA)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'pipedream_solver/'
NS, SL, NG, GEO, WQ, SIM = S + 'nsuperlink.py', S + 'superlink.py', S + 'ngeometry.py', S + 'geometry.py', S + 'nquality.py', S + 'simulation.py'
TESTS = 'The four scripts that pass run a handful of fixed networks and check that a run completes or plot a curve; '
P = []


def p(id, title, statement, over, text, why, files, mech, level_note, technique='symbolic execution of the real methods, obligations decided by Z3', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, technique=technique, observe=observe))


COMMON = ('Bounded symbolic execution of the unmodified Python bodies of the kernels; exact real arithmetic, so rounding, overflow and the '
          'numba compilation itself are trusted. ')
p('C01', 'Water volume balance at every superjunction',
  'After a time step, at every superjunction without a prescribed head the change of head times the storage area (at the depth before the step, plus half of the connected end reaches) equals the time step times the net inflow: external inflow plus the flow of all superlinks, orifices, weirs and pumps entering minus those leaving. Flow that leaves one superjunction through a connector enters the other one, and the superlink end flows that are reported are those of this balance. Only a head that would leave the range between invert and maximum depth is cut back to it.',
  ['inputs', 'configurations'], 'every network topology with any number of connectors per superjunction, every state, external inflow and time step',
  TESTS + 'none checks the volume balance of a step, and no fixed run covers parallel, reversed or boundary-connected links and controls.',
  [NS], [('assembly of the head system', NS + ' sparse_matrix_equations'), ('solution of the system and clipping', NS + ' solve_sparse_matrix / solve_banded_matrix'), ('end flows', NS + ' solve_superlink_flows'), ('storage areas', NS + ' compute_storage_areas')],
  COMMON + 'Arbitrary coefficients, heads and time step on six small networks (up to 4 superjunctions); the whole step at fixed warmed-up states of 17 networks for all forcing in a box.')
p('C02', 'Continuity at every internal junction of a superlink',
  'After a time step, at every internal junction of every superlink the storage area (half the water surface of the adjacent links or end reaches plus the junction area, at the state before the step) times the change of depth equals the time step times (flow in minus flow out plus lateral inflow). This holds for every supported way of computing the internal states and for any number of links per superlink, unless a depth is cut back to its minimum or maximum.',
  ['inputs', 'configurations'], 'every superlink discretisation, state, lateral inflow, time step, end reach length and internal solution method',
  TESTS + 'none looks at internal junctions; unequal numbers of links per superlink and the alternative solution methods are not run.',
  [NS], [('continuity coefficients', NS + ' node_coeffs'), ('recurrences', NS + ' forward_recurrence / backward_recurrence'), ('back substitution', NS + ' solve_internals_backwards / forwards / lsq')],
  COMMON + 'Coefficient identities for arbitrary states on two discretisations, recurrences and back substitution for arbitrary coefficients with up to 4 links, the whole step at warmed-up states of 17 networks for all forcing in a box.')
p('C03', 'Momentum equation of every link',
  'After a time step, the flow in every link and its two neighbours satisfies the linearised momentum equation with the coefficients of the state before the step: inertia over the time step, upwinded advection with distance-weighted velocities, bed slope, pressure, friction by the chosen formula (Manning, Hazen-Williams or Darcy-Weisbach) and the local loss of a control section. With inertial damping the inertia and advection terms fade between Froude numbers 0.5 and 1. No friction formula fails when there is no flow.',
  ['inputs', 'configurations'], 'every state, discretisation, friction law, loss coefficient, Froude number and time step',
  TESTS + 'none checks the momentum equation; friction laws other than Manning, local losses, reverse flow and damping are not exercised with an oracle.',
  [NS], [('momentum coefficients', NS + ' link_coeffs, numba_a_ik .. numba_P_ik'), ('friction', NS + ' friction kernels'), ('node velocities', NS + ' node_velocities'), ('flow regime', NS + ' compute_flow_regime')],
  COMMON + 'Coefficient identities for arbitrary states with up to 3 links, the whole step at warmed-up states of 17 networks for all forcing in a box; Darcy-Weisbach and damping only at those states.')
p('C04', 'Head relation between superjunctions and superlink ends',
  'After a time step, the depth at each end of a superlink equals the head of its superjunction above the invert of that end, with the entry or exit loss of the end flow (and, for the momentum-based end condition, inertia, friction and slope of the end reach) taken off upstream and added downstream. An end whose superjunction lies below its invert is disconnected: the head does not contribute. The end flows are consistent with the internal flows of the superlink.',
  ['inputs', 'configurations'], 'every state, loss coefficient, end reach, offset and flow direction',
  TESTS + 'none checks the depth at a superlink end; losses, offsets and end reaches are mostly zero in them.',
  [NS], [('end head coefficients', NS + ' superlink_upstream_head_coefficients / superlink_downstream_head_coefficients'), ('end flow coefficients', NS + ' superlink_flow_coefficients'), ('end depths', NS + ' solve_superlink_depths')],
  COMMON + 'Coefficient identities for arbitrary states with two superlinks; the whole step at warmed-up states of 17 networks for all forcing in a box.')
p('C05', 'Prescribed boundary heads are taken exactly',
  'A superjunction that is marked as boundary has exactly its prescribed head after every step (cut back only to the range between its invert and its maximum depth), whatever is connected to it, and whether or not external inflow is given for it. Its neighbours see that prescribed head.',
  ['inputs', 'configurations'], 'every network, set of boundary superjunctions, connected controls and prescribed head',
  TESTS + 'boundary heads appear in one or two of the scripts with nothing but superlinks attached and without any check of the value.',
  [NS], [('boundary rows', NS + ' sparse_matrix_equations, numba assembly kernels')],
  COMMON + 'Arbitrary coefficients and heads on four networks with two boundary superjunctions each and all kinds of controls attached; the whole step on three networks.')
NA = [('N01', 'Plots and animations show the model state', 'drawing code: output is pixels produced by matplotlib, with no condition over values that a solver could decide')]
exec(open(os.path.join(HERE, 'tools', 'meta2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta2.py')) else None


def main():
    rows, checks, na = [], [], []
    for x in P:
        if not os.path.exists(os.path.join(HERE, 'props', x['id'].lower() + '.py')):
            continue
        assert len(x['title']) <= 80, x['title']
        a = dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']])
        if x['observe']:
            a['observe_at'] = x['observe']
        rows.append(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'], anchors=a))
        checks.append(dict(property=x['id'], quick_cmd='python3 check.py ' + x['id'], thorough_cmd='python3 check.py %s --tier thorough' % x['id'],
                           technique=x['technique'], level='model_checking', level_note=x['note']))
    for id, title, why in NA:
        rows.append(dict(id=id, title=title, statement='Network plots, profile plots and animations show the depths, flows and geometry of the model state they are given.',
                         quantifier=dict(over=['inputs'], text='every model state'), why_tests_cant='no test compares a picture',
                         anchors=dict(files=[S + 'visualization.py'], mechanism=[dict(name='plotting', where=S + 'visualization.py')])))
        na.append(dict(property=id, reason=why))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')
    man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks: the checks run the unmodified package. See DESIGN.md.')
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    try:
        import jsonschema
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for r in rows:
            jsonschema.validate(r, s)
    except ImportError:
        print('no jsonschema')
    print(len(rows), 'properties', len(checks), 'checks')


main()
