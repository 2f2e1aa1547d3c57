PLAY = "Real Ansible and plugins run in one process with a scripted client over the real transport; trusts that a task run in the playbook process behaves as in a forked worker."
H1 = "The real callback and strategy plugins, debugger object and transport run under a controlled scheduler; a driver makes Ansible's calls. Every single preemption (thorough: more) at each synchronisation and source line is explored."
H2 = "The real debug adapter, codec and transport run under a controlled scheduler between a scripted client and a scripted playbook. Every single preemption (thorough: two) at each synchronisation, read, write and source line is explored."
MORE = {
    "C05": ("stateless exploration of interleavings of the adapter's own, relayed and end-of-session messages", H2),
    "C06": ("stateless exploration of interleavings of requests and playbook ends; enumeration of request kinds, failures and session stages", H2),
    "C07": ("stateless exploration of interleavings of every way a session ends", H2),
    "C22": ("stateless exploration of launch outcomes; enumeration of requested commands run through the real script", H2),
    "C08": ("stateless exploration of interleavings: every way of leaving at every stage of a session", H1),
    "C09": ("stateless exploration of interleavings: every way of terminating at every stage of a session", H1),
    "C10": ("stateless exploration of interleavings of configuration requests, lost connections and the playbook's start", H1),
    "C11": ("stateless exploration of interleavings of the playbook's end and the client; enumeration of early ends of real processes", H1),
    "C12": ("stateless exploration of file loading against breakpoint requests, and of request placement in whole playbooks", H1 + " " + PLAY),
    "C13": ("explicit enumeration of breakpoint placements and conditions over whole playbooks against an oracle over the files", PLAY),
    "C14": ("stateless exploration of interleavings of replacement requests and running tasks", H1),
    "C21": ("stateless exploration of interleavings of stops and resume commands", H1),
    "C20": ("explicit enumeration of mapping lists and of every client path and stack under each, in real sessions", PLAY + " Covers mapping lists of up to 2 (thorough: 3) over small root sets."),
    "C15": ("stateless exploration of all command sequences over 17 playbooks against an oracle over the playbook's structure", PLAY),
    "C16": ("explicit enumeration of filter sets over whole playbooks with every kind of result against an oracle over the playbook's structure", PLAY),
    "C17": ("explicit enumeration of every stop of whole playbooks, the state at each compared with an oracle over the playbook's structure", PLAY),
    "C18": ("explicit-state exploration of all sequences of variable edits up to a depth, run to the end of the playbook against a model", PLAY + " One variable layout; sequences of up to 2 (thorough: 3) edits out of 42."),
    "C19": ("exhaustive enumeration of a grammar of command lines and of all short texts, in every context and frame, against values known by construction", PLAY),
    "C26": ("differential enumeration of playbooks, debugger settings and client behaviours against plain Ansible, in one process and in real processes", PLAY),
    "C23": ("exhaustive enumeration of address forms, temporary directories, host address families and ways to attach over real processes", "Real listening debuggers and real debug adapters over real sockets; the host without IPv4/IPv6 dual stack is simulated at the feature test."),
    "C24": ("exhaustive enumeration of the TLS configuration matrix, of every abort point of a handshake and of sequences of failing peers over real sockets", "Real queues, contexts and OpenSSL; connections closed and reset after every byte count in each direction. Outcomes compared with a table of which certificate satisfies which policy."),
    "C25": ("exhaustive enumeration of configuration sources, debug options and argument lists, comparing the command, environment and effective configuration started with the user's own", "Real `ansibug` command lines and real Ansible configuration loading; the last step, ansible-playbook itself, is replaced by a recorder except in the whole part."),
    "C27": ("exhaustive enumeration of all file-creation masks for every way an endpoint is made, the directory and the mask examined after every line and call of the real code", "Real files and masks as root on Linux; a platform without fchmod on sockets is simulated by refusing the call."),
    "C28": ("stateless exploration of sessions of the real adapter with the log on, exhaustive enumeration of levels x names x formats x contents, and the same real playbooks and processes with and without a log", "The real logging code and files. The schedule bound is one deviation (two in the deepest thorough scenarios); playbooks are the fixtures."),
}
