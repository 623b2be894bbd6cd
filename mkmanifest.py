#!/usr/bin/env python3
# Writes MANIFEST.json. One line per claimed property; the others are "not_applicable" with the reason.
import json
T="deterministic simulation with fault injection: seeded search over schedules, crashes and I/O faults of the real code under a simulated kernel; "
C={
'C01':'oracle: replay of the transaction log against a reference model',
'C02':'process kill and power loss at random file operations, restart, oracle over the transaction log',
'C03':'oracle: reference model of optimistic concurrency along the transaction log',
'C04':'oracle: reads explained by a committed state of their window',
'C05':'oracle: view entries explained by versions of documents within the query window',
'C06':'oracle: uniqueness and eager visibility at every log position, with crashes',
'C07':'schema changes and crashes between process lifetimes; oracle maps the current definition over the current documents',
'C08':'oracle: one log entry per committed transaction, pages are contiguous pieces of the final log',
'C09':'compaction concurrent with clients and crashes; oracle of C01-C05',
'C10':'concurrent key-value calls; per-key linearizability search against a reference model',
'C11':'clean closes, process kills, power losses and reopenings; per-key linearizability across openings with a durable floor',
'C12':'expirations under virtual time, clock jumps, restarts; per-key linearizability with expiration windows',
'C14':'administrators creating, opening and deleting databases concurrently, with crashes; per-database linearizability search against a reference model',
'C15':'administrators change users, groups and roles while clients log in and act; linearizability of logins and permissions against a reference model, with crashes',
'C19':'mixed workloads with one to few workers, failing view functions and failing writes; bounded progress once faults stop, deadlock detection by the simulated kernel',
'C25':'I/O errors, full disk and failed flushes at random file operations; oracle of C01-C09 where a failed call has no effect or its whole effect, also after a restart',
'C17':'changing combinations of encryption keys and compression across process lifetimes, with crashes; every byte written is searched for marked secrets and key material, everything must read back, stolen copies without the vault key are attacked through the API',
'C16':'backups to a directory or a failing location while clients write, restored into another storage; oracle: each item is a version current during the backup, with I/O errors',
'C20':'blocking and async clients create, append, truncate, read, move and delete files concurrently, with crashes; linearizability search against a reference model of paths and blocks, every read repeated in pieces with seeks',
'C18':'several owners opening and closing one directory under seeded schedules with background jobs, handles dropped in any order, crashes; oracle of exclusive ownership, identity and durability at close',
'C21':'real client and server over a simulated network with delays, fragmentation and small windows; each response is judged by the reference models of documents and keys as if it were a local call',
'C22':'connections cut in any direction, reset at random bytes, refused, outages and server restarts under virtual time; bounded time of calls, effects at most once by the reference models, recovery and clean-up once faults stop',
'C23':'publishers and subscribers on several remote connections and on the server itself; oracle of delivery windows, order and duplicates',
'C24':'several clients and sessions per connection authenticate, assume identities and act while users, groups and roles change, the connection or the server restarts; linearizability of logins and permissions against a reference model',
'C13':'publishers and subscribers under seeded schedules; oracle of delivery windows, order and duplicates',
}
import os,sys
here=os.path.dirname(os.path.abspath(__file__))
extra=os.path.join(here,'claims.json')
if os.path.exists(extra): C.update(json.load(open(extra)))
props=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
NOTE="No violation in the seeds explored; a seed is one exactly repeatable execution of the real code. Trusts: the simulated kernel (futex, clock, files, sockets), sequential consistency (one thread runs at a time), the reference model. Known defects of the external crate nebari are recognised on the simulated disk and reported as KNOWN-FINDING."
m={'version':1,'setup_cmd':'./build.sh','checks':[],
 'hooks':{'guard':'none','enable':'no hooks in /repo: the simulator interposes libc calls and instruments the crates with a compiler flag (RUSTC_WORKSPACE_WRAPPER-free sancov build in /verif/sim)','source_commits':[]},
 'not_applicable':[],'notes':'See DESIGN.md. check.sh PROPERTY TIER builds /repo\'s working tree into /verif/target and runs the search; VERIF_SECS overrides the search time.'}
for p in props:
    if p in C:
        m['checks'].append({'property':p,'quick_cmd':f'./check.sh {p} quick','thorough_cmd':f'./check.sh {p} thorough','technique':T+C[p],'level':'exploration','level_note':NOTE})
    else:
        m['not_applicable'].append({'property':p,'reason':'the simulation of this part is not built yet'})
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
