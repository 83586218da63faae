import json,sys
sys.path.insert(0,'/verif')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes={'C01':'prove and verify run as real code in simulated processes','C15':'all 16 KEM builds','C16':'all 16 KEM builds','C17':'all 16 builds'}
checks=[]
for p in props:
    if p['id'][0]!='C': continue
    i=p['id']
    checks.append(dict(property=i,quick_cmd='python3 check.py run %s'%i,thorough_cmd='VERIF_TIER=thorough python3 check.py run %s'%i,evidence_file='evidence/%s.json'%i,
      technique='deterministic simulation with fault injection: seeded search over schedules and fault sequences, oracle by independent reference model',
      level='exploration',
      level_note='Seeded sampling of simulated executions of the real code (threads, entropy device, stdio, clock, allocator and process lifecycle simulated); each violation is reproduced from its seed, minimised and replayed in a fresh process before it is reported. Evidence, not proof; trusts the reference model in sim/ref.cpp and the simulated devices. Scaled-down proof dimensions except where DESIGN.md says otherwise.'))
na={'N01':'A pure function of its operands: no schedule, clock, fault or interleaving for a simulator to decide; the simulated runs only exercise it indirectly against the reference model.',
'N02':'Timing and cache behaviour are outside a deterministic simulator, which replaces the clock and the scheduler.',
'N03':'A mathematical statement about constants, not about executions.'}
m=dict(version=1,setup_cmd='python3 build.py',hooks=dict(guard='POIK_SIM_PARAMS',enable='build.py compiles the scaled variants with -DPOIK_SIM_PARAMS -DPOIK_SIM_REPS=.. -DPOIK_SIM_WIDTH=.. -DPOIK_SIM_HEIGHT=..; the F variants are built without it',source_commits=['b7dd7ad']),
 checks=checks,not_applicable=[dict(property=k,reason=r) for k,r in na.items()],notes='Replay a violation with: python3 check.py replay <file>. Determinism self-test: python3 check.py determinism. Defects found and repaired: KNOWN_FINDINGS.txt.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props: jsonschema.validate(p,S)
print('ok')
