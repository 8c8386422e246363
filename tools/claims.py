HOOKS=dict(guard='--cfg souris_verif',enable='shims/sourisd/build.rs sets the cfg for the library it builds from crates/sourisd/src/main.rs',source_commits=['f046aac'])
SCHED='stateless model checking of the real daemon under a controlled scheduler, clock, cache, signals and file system (all executions within bounds, from a reference model of the daemon)'
DT='The daemon is the real code of /repo; tokio, axum serving, moka, clock, signals and file system calls are controlled substitutes in shims/ and daemon/src/sys.rs, which are trusted. Exhaustive within the bounds the evidence lists per section. '
TRUST='Exhaustive within the bounds the evidence lists per section; trusts rustc, the reference model in codec/src and the pinned dependencies. '
c('C01',CODEC,TRUST+'Map iteration orders are enumerated by substituting the hasher crate behind hashbrown.')
c('C02',CODEC,TRUST+'Four JSON double floats that serde_json itself reads back one unit off are listed as known findings.')
c('C03',CODEC,TRUST+'128-bit values are covered at and around every power of two and byte boundary, not in full.')
c('C05',CODEC,TRUST)
c('C06',CODEC,TRUST)
c('C07',CODEC,TRUST)
c('C08',CODEC,TRUST)
c('C04',CODEC,TRUST+'Inputs longer than the exhaustive ones are reached by truncating, extending and changing one byte of well-formed encodings.')
c('C09',CODEC,TRUST+'Leap seconds that are not the 60th of their minute are listed as known findings.')
c('C10',CODEC,TRUST)
c('C11',CODEC,TRUST+'serde_json itself is the oracle for what has a JSON form.')
c('C12',CODEC,TRUST)
c('C13',CODEC,TRUST)
c('C14',CODEC,TRUST)
c('C15',CODEC,TRUST+'The format is the one the code had when the check was written, as described in codec/src/format.rs.')
c('C16',CODEC,TRUST+'axum buffers the bodies and keeps the limits; it is the pinned dependency itself.')
c('C17',CODEC,TRUST+'The table is drawn by comfy-table, the pinned dependency itself, without a terminal.')
c('D01',SCHED,DT)
c('D02',SCHED,DT+'Sequentially consistent memory, switches at waits, locks, cache accesses and system calls.')
c('D03',SCHED,DT)
c('D04',SCHED,DT+'Power loss: any subset of the directory changes and any of several contents of the files not synced yet.')
c('D05',SCHED,DT+'Failures while starting are not part of it.')
c('D06',SCHED,DT+'A case sensitive file system with names of up to 255 bytes.')
c('D07',SCHED,DT)
c('D09',SCHED,DT)
c('D11',SCHED,DT+'The layout is the one the daemon had when the check was written.')
c('D12',SCHED,DT+'The other process is what it has left on disk and that the port is taken.')
c('D08','exhaustive enumeration of call sequences, names, values and server answers through the real clients against the real daemon process, each compared with a reference model','Exhaustive within the bounds the evidence lists per section: sequences of calls, one at a time, over the loopback network. The daemon is the built binary, its port given away by a preloaded library.')
c('D10','exhaustive enumeration of commands, databases, answers to every question (and the end of the answers at each), values and sequences of commands, through the real tool against the real daemon process, each compared with a reference model','Exhaustive within the bounds the evidence lists per section. The tool is the real code built with a stand-in for the dialoguer crate that asks through a pipe; a part of the sessions is repeated by the tool as it is at a pseudo terminal and has to end the same.')
