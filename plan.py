"""What each check runs: (build, workload, runs in the quick tier, runs in the thorough tier, extra options)."""
def S(b, w, q, t, *o): return (b, w, q, t, list(o))
PLAN = {
 'C01': [S('p434t','honest',200,8000), S('p434d','honest',90,3000), S('p434w','honest',40,1500), S('p503c','honest',40,1500), S('p610d','honest',30,1000), S('p751c','honest',25,800), S('p434g','honest',16,400), S('p434s','honest',40,600), S('p434m','honest',40,1000), S('p434c','honest',0,2000), S('p610c','honest',0,1000), S('p434l','honest',8,60), S('p751w','honest',0,200), S('p434F','honest',0,8), S('p503F','honest',0,8), S('p610F','honest',0,8), S('p751F','honest',0,8)],
 'C02': [S('p434t','verdict',400,20000), S('p434m','verdict',200,6000), S('p434w','verdict',80,3000), S('p503c','verdict',60,2000), S('p610c','verdict',50,2000), S('p751c','verdict',40,1500), S('p434g','verdict',20,500), S('p434d','verdict',100,3000), S('p434l','verdict',24,800), S('p751l','verdict',8,100), S('p751w','verdict',0,300), S('p434F','verdict',0,40), S('p751F','verdict',0,16)],
 'C03': [S('p434t','tamper',2500,100000), S('p434w','tamper',800,30000), S('p503c','tamper',400,15000), S('p610c','tamper',300,10000), S('p751c','tamper',300,10000), S('p434l','tamper',150,5000), S('p751w','tamper',0,4000), S('p751l','tamper',0,500), S('p434F','tamper',8,1000), S('p503F','tamper',0,300), S('p610F','tamper',0,300), S('p751F','tamper',0,300)],
 'C04': [S('p434t','byz',800,20000), S('p434w','byz',300,6000), S('p434c','byz',250,6000), S('p503c','byz',160,3000), S('p610c','byz',100,3000), S('p751c','byz',80,2000), S('p434l','byz',24,800), S('p434F','byz',0,40), S('p751F','byz',0,16), S('p434d','byz',0,3000), S('p751w','byz',40,800), S('p434g','byz',0,500)],
 'C05': [S('p434t','conform',150,8000), S('p434w','conform',60,3000), S('p503c','conform',60,3000), S('p610c','conform',50,2000), S('p751c','conform',40,1500), S('p434l','conform',16,300), S('p434g','conform',16,300), S('p434c','conform',0,3000), S('p751w','conform',16,300), S('p751l','conform',0,50), S('p434F','conform',0,30), S('p503F','conform',0,20), S('p610F','conform',0,16), S('p751F','conform',0,16)],
 'C06': [S('p434o','output',2400,60000), S('p434t','output',250,20000), S('p503c','output',80,3000), S('p610c','output',50,2000), S('p751c','output',40,1500), S('p434l','output',24,1500), S('p434s','output',80,2000), S('p434w','output',0,1500)],
 'C07': [S('p434h','hostile',10000,150000), S('p434t','hostile',6000,60000), S('p434d','hostile',4000,40000), S('p610h','hostile',2000,20000), S('p503c','hostile',1200,15000), S('p751c','hostile',1200,10000), S('p434w','hostile',1200,15000), S('p610d','hostile',600,8000), S('p434g','hostile',180,2000), S('p434l','hostile',300,3000), S('p434F','hostile',0,500), S('p751F','hostile',0,200)],
 'C08': [S('p434t','entropy',300,15000), S('p434m','entropy',80,4000), S('p503c','entropy',60,2000), S('p610c','entropy',40,1500), S('p751c','entropy',32,1000), S('p434w','entropy',40,1500), S('p434d','entropy',0,1500), S('p434s','entropy',0,800), S('p434l','entropy',8,40)],
 'C09': [S('p434t','zk',100,4000), S('p434c','zk',24,1500), S('p434w','zk',16,800), S('p503c','zk',16,600), S('p610c','zk',16,500), S('p751c','zk',8,300), S('p434m','zk',0,500)],
 'C10': [S('p434t','race',250,15000), S('p434m','race',100,5000), S('p434w','race',40,1500), S('p503c','race',40,1500), S('p610c','race',30,1000), S('p751c','race',24,800), S('p434d','race',50,2000), S('p434g','race',10,300), S('p434l','race',4,50)],
 'C11': [S('p434t','live',1000,20000), S('p434m','live',400,6000), S('p503c','live',160,2500), S('p610c','live',120,2000), S('p751c','live',80,1500), S('p434s','live',120,1500), S('p434d','live',200,3000), S('p434w','live',120,2000), S('p434l','live',16,100)],
 'C12': [S('p434t','gate',2400,60000), S('p503c','gate',900,12000), S('p610c','gate',600,8000), S('p751c','gate',480,6000), S('p434d','gate',900,12000), S('p434g','gate',120,1000), S('p434w','gate',0,6000)],
 'C13': [S('p434t','ceremony',160,6000), S('p434w','ceremony',24,800), S('p503c','ceremony',30,1000), S('p610c','ceremony',24,800), S('p751c','ceremony',16,500), S('p434c','ceremony',0,2000), S('p751w','ceremony',0,100)],
 'C14': [S('p434t','format',30000,200000), S('p434w','format',10000,60000), S('p503c','format',10000,60000), S('p610c','format',10000,60000), S('p751c','format',10000,60000), S('p434l','format',1500,10000), S('p434F','format',750,5000,'shipped=1'), S('p503F','format',750,5000,'shipped=1'), S('p610F','format',500,3000,'shipped=1'), S('p751F','format',400,3000,'shipped=1')],
 'C15': [S('kem','kem',280,6000,)],
 'C16': [S('kem','reject',480,16000,)],
 'C17': [S('kem','kex',400,6000,)],
}
RULES = ('A case is one simulated run: all processes, threads, devices and messages of one scenario, driven by one seed derived from VERIF_SEED, the property and the run number; workload, '
 'parameters, fault mix and schedule policy are redrawn per run (swarm style). A run is non-trivial if it took at least one non-default choice (fault, preemption, corruption or workload variation); '
 'distinct means a different hash of the complete event trace (schedule, I/O, faults, results). Distinct thread schedules are counted by the hash of the sequence of (thread, access count) quanta of runs with at least one switch.')
ASSUME = ['Interleavings are explored at instrumented memory accesses to shared data and at calls into the operating system; sequential consistency is assumed (conflicting unsynchronised accesses are reported as races instead).',
 'Builds with scaled-down repetition counts and chain lengths (hook POIK_SIM_PARAMS) run the same code as the shipped ones; shipped dimensions are run where listed under workloads (builds ending in F).',
 'The reference model (GMP-free big-integer isogeny arithmetic, SHAKE256, verifier and prover in /verif/sim/ref.cpp) is right; it was written from the paper\'s and Sage verifier\'s definitions and shares no code with /repo.',
 'Sampling, not enumeration: a clean batch is evidence, not proof.']
STUBS = dict(real=['poik.c, prove.c, verify.c (main functions included)', 'field arithmetic (assembly and portable), curve and isogeny code', 'random.c', 'fips202.c', 'sike.c/sidh.c and compression (KEM checks)'],
 simulated=['pthread/C11 threads, mutexes, condition variables, once, semaphores (fibers under the seeded scheduler)', 'stdin/stdout/stderr devices below stdio (chunking, short writes, errors, full disk)', '/dev/urandom (open, read, getrandom)', 'clock, sleep, sysconf/CPU count', 'malloc family (guarded heap, injected failures)', 'process lifecycle: kill at any step, exit status, restart with only durable text'],
 harness=['participants, coordinator and network of the ceremony; KEM/key-exchange peers and network', 'reference prover/verifier', 'Byzantine prover'])
LEVEL_NOTE = {}
