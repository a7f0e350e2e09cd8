import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na=json.load(open('/verif/MANIFEST.json'))['not_applicable']
na=[x for x in na if x['property'] in('C21',)]
notes={
'C01':"seeded search over inputs, formats, placements and short/interrupted transfers; each run is checked against a reference implementation of the format",
'C02':"errors aimed at every kind of storage call of a clean run, full disks, lasting failures; success must imply the complete result on the simulated disk",
'C03':"random and structured damage at rest and in transfer; not every damage can be tried",
'C04':"random key histories against a set model and the reference implementation",
'C05':"every storage call of every sampled change is a kill, power-loss and error point; power-loss outcomes (which unsynced writes survive) are sampled",
'C06':"dump/strip/restore histories incl. unsuitable targets and damaged headers",
'C07':"aimed faults on every operation; aliases of input, header, key file and output in several spellings",
'C08':"kill/power/error points aimed around the erasure, enumerated in small runs and sampled in larger ones",
'C09':"write sequence and medium content at release, under faults and write-back behaviours",
'C10':"random and priority schedules of the worker threads, faults, links",
'C11':"tree shapes, spellings, schedules, short transfers, faults; archive read by an independent unzip",
'C12':"hostile names from a generator, effects judged on the whole simulated file system",
'C13':"recognisable content is searched on everything the simulated medium ever held, at release",
'C14':"threads of one process under random and priority schedules; equal random numbers and name collisions",
'C15':"processes that differ only in the randomness of the system; values drawn are compared over the whole history",
'C16':"hash against an independent BLAKE3 call over the true content",
'C17':"files made by an independent implementation of header versions 1 to 5",
'C18':"outcomes of the random source are chosen by the simulator, extremes included",
'C19':"bounded number of storage calls, no panic, no deadlock, on hostile inputs and faults",
'C20':"every block of heap memory is searched for the keys and the plaintext when it is released, on successful and failing paths; copies on the stack and inside the ciphers' own state are out of reach",
'C22':"all combinations of existing outputs, answers and forcing from a generator; answers delivered in parts; faults, kills and power loss aimed at a clean run",
'C26':"crash points and faults are sampled over up to three attempts; the state that survives is the start of the next attempt; the last one runs without faults and is compared with an undisturbed run",
'C27':"which piece of output is lost, how and for how long is sampled from the calls of a clean run; other faults and schedules are mixed in; what counts as shown is what the simulated outputs accepted",
'C28':"schedules and faults are sampled; the operation is followed by others in the same process, so that a thread that lives on has the time to be seen; calls and open files are counted in the trace",
'C25':"every write, name and output of every run is searched for the keys in a dozen spellings, and for the content; terminal echo is part of the simulated terminal",
'C24':"two sizes of content through every operation; the most heap memory in use at one time is compared, under short transfers, faults and schedules; archives whose declared sizes are wrong",
'C23':"several sources of a key at once, usable or not; faults and kills aimed at the calls that read the key",
}
level={i:'exploration' for i in notes}
for i in('C05','C08'): level[i]='fault_enumeration'
m={"version":1,"setup_cmd":"./check.sh build","hooks":{"guard":"none: the seam is the C library's system interface, interposed by a preloaded library","enable":"no flag; /repo is built unchanged","source_commits":[]},
"checks":[{"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection (seeded search over schedules, faults and crash points)","level":level[i],"level_note":notes[i]} for i in notes],
"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
