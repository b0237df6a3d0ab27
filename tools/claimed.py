# further claimed properties: claimed[id] = (technique, level, note)
FN = ("Decided for all arguments and all outcomes of the calls on the way, relative to the models of the libraries. ")
claimed["C11"] = ("abstract interpretation with a lockset analysis", "proof", FN + "Interleavings of the operations are reduced to their sequential behaviour by the lockset rule.")
claimed["C17"] = (AI, "other", "Membership and index bounds hold for every list length and counter state; the order of the choices and minimality are decided for lists of 1 to 5 loops with unknown counts.")
claimed["C19"] = (AI, "proof", FN + "Combinations are covered by frame conditions on each option plus all pairs in both orders.")
claimed["C20"] = (AI + " over every failing call", "proof", FN)
claimed["C23"] = (AI, "proof", FN + "The timer library itself is trusted to fire as scheduled.")
claimed["C37"] = (AI, "proof", FN)
CD = "Decided for every input of every length, relative to the models of the ring buffer and of the encoding libraries. "
for i in ("C24", "C25", "C26", "C28", "C29", "C30", "C31", "C34"):
    claimed[i] = (AI, "proof", CD)
LO = ("Decided over every order of the synchronising operations of the loop's goroutine and its users (data-race freedom, decided by the lockset rule, "
      "makes that granularity exact), with the kernel's readiness unknown. ")
claimed["C09"] = ("abstract interpretation over all interleavings, with a lockset analysis", "proof", LO + "Two queueing goroutines, tasks and handlers that queue again, and a queue of unknown length; more goroutines are alike.")
claimed["C10"] = ("abstract interpretation over all interleavings, with a lockset analysis", "proof", LO + "Wake-up writes are assumed to succeed.")
claimed["C15"] = (AI, "proof", LO + "The number of events, their order and the event mask are unknown.")
SV = ("The server is decided over every order of the synchronising operations of Start, its loops and the callers of Stop, with an event loop replaced by what the loop analyses establish for it. ")
claimed["C13"] = ("abstract interpretation over all interleavings, with a lockset analysis", "proof", LO + SV + "One and two work loops and two callers of Stop; more are alike.")
claimed["C14"] = ("abstract interpretation over all interleavings", "proof", LO + SV + "One and two open sockets per loop; more are alike. That a closed connection gets its callback is C05.")
HS = "Decided for requests of every structure listed in DESIGN.md (order, spelling, subset, place of the first deviation, place of the end) with unknown values of unknown length; "
claimed["C27"] = (AI, "other", HS + "headers beyond those the handshake needs appear one at a time.")
claimed["C36"] = (AI, "proof", HS + "the digest is an uninterpreted term.")
claimed["C32"] = (AI, "other", "All paths of the connection layer, the decoders, the dispatching of frames and the handshake (whose requests are enumerated by structure, see C27); the body of ws.Cipher is excluded, it is assumed to mask.")
claimed["C35"] = (AI, "other", "Decided for unknown bytes, every offset modulo four (also large ones), and payloads of every length up to 136 (thorough: 330) and some up to 2053: the loop over words is unrolled, so longer payloads are covered only in so far as the code does not distinguish them. Little-endian machines.")
