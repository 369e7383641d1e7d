#!/usr/bin/env python3
"""Writes the list of properties of DESIGN.md from the texts below and the last evidence of each check."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
TEXT = {
'C01': ("The set of accepted sequence numbers and the highest one; 'must accept' and 'must reject' sets per delivery. Concurrent suites: in every interleaving each number is accepted at most once, fresh ones exactly once.",
        "Windows start at 0, 2^32 and 2^62; three preemptions at most; real atomics are explored under sequential consistency."),
'C02': ("What was sent, byte for byte, with both identities. Subscriber calls and query results must be exactly that multiset after all datagrams arrived, and nothing of a message that lost a datagram.",
        "All orders of up to three datagrams, four orders for more (in order, reversed, odd first, last first)."),
'C03': ("An array of bytes with the parts put into it: a message is produced exactly when the parts tile it and its hash fits.",
        "Parts of messages of 5 bytes (offsets and lengths are the state space, contents are not)."),
'C04': ("Observable state of a node (peers, channels, sequence numbers, dates, subscriber calls, datagrams) is the same as in a twin world without the datagram.",
        "All single changes of a byte, all truncations; pairs of changes are not."),
'C05': ("After the network works again, a fixed number of rounds of messages must all be understood and end in channels on both sides; a side never uses a channel which the other one has not shown; at most one channel per pair.",
        "Two nodes, up to 5 free steps, faults bounded by deviations."),
'C06': ("Highest accepted incarnation per peer; each packet is classified as followed, rejected or answered.", "Dates around every boundary (now, tolerance, equality)."),
'C07': ("Queries in flight with deadlines; each ends exactly once with the first answer of its id or nothing at the deadline; the table of pending queries is empty afterwards. Threads: answers, duplicates, timeouts and cancellations race on the real cache.", ""),
'C08': ("Order of registration; each subscriber has a scripted reaction; the log of offers and the answers sent must be the predicted ones.", ""),
'C09': ("A map of peers and addresses; reachability in both directions is tested by traffic after each operation.", ""),
'C10': ("A list of peers used as a ring; random choices of the generator are enumerated, not sampled. Threads: linearizability against the list, deadlocks.", ""),
'C11': ("Two maps.", ""),
'C12': ("Arithmetic over the dates written independently; announcements of real nodes are parsed back.", ""),
'C13': ("Which values are storable is decided by an independent predicate over the fields (own signature check, own limits).", ""),
'C14': ("A map of values with expiration times and, for overlays, a map of members with versions. Races: results must be those of some order of the operations.", ""),
'C15': ("Puppets answer with every kind of right, wrong and foreign answers; the application may only get the authentic ones, and gets one when a queried puppet has it.", ""),
'C16': ("The set of valid descriptions by peer and xor distances computed bit by bit.", ""),
'C17': ("Puppets answer, stay silent or refer to others in every order; the oracle keeps the set of peers to ask, the number in flight and the values someone has.", ""),
'C18': ("A counter per peer.", ""),
'C19': ("What was sent; losses, repetitions and reorderings of symbols, confirmations and completions are enumerated as deviations.", "Transfers of several parts are real ones (2 MB each) in fixed patterns of losses only."),
'C20': ("Number of transfers, tasks and permits left over after the grace period is zero, following transfers work, limits hold, at most one delivery per transfer id.", ""),
'C21': ("The payload itself; the decoder's answers for every subset are compared with it, source symbols with the slices of the payload.", "Payloads of up to 7 symbols for all orders, 100 symbols for sets of lost ones."),
'C22': ("The input itself.", "There is no limit of the decompressed size in the code and none is claimed (see limitations)."),
'C23': ("Set of broadcasts by content; each member gets each exactly once; the number of datagrams is bounded; the flood ends.", "Up to 4 members. Redelivery after a broadcast has been forgotten is allowed."),
'C24': ("Independent signing and checking of all fields from the text of the TL scheme.", ""),
'C25': ("A FIFO; in each interleaving all items are returned once and nobody sleeps while there is an item for it.", "Up to 3 preemptions."),
'C26': ("A map of members with versions, and the set of removed ones.", ""),
'C27': ("Which subscriber is registered under which overlay, and the bytes after the prefix.", ""),
'C28': ("A reference encoder of the TL scheme (scheme lines copied from the TON documentation) that shares no code with tl-proto; parsed values are encoded back.", "Pairs of defects only for the default value of a kind."),
'C29': ("Lifecycle automaton (new, started, stopped) with queues of datagrams which wait for the node; alive tasks of the runtime and the reference count of the node after a stop. A second peer must be served after each piece of garbage.", "Stack exhaustion is tested in a child process on a thread of 2 MB."),
'C30': ("Reference sender: part index, window, completion. Parts are made of two symbols by a hook so that several parts fit into the explored space.", ""),
'C31': ("A map from key (owner, name, index) to what was stored with its expiry; announced addresses and overlay members; who was asked to introduce itself to whom. Every read of every other node is compared with it.", "Networks of two and three nodes, values with a short life; lost datagrams belong to C17."),
'C32': ("Which layers the node has, under which tag and with which options; the predicted answer of each kind of query by the layer or application which should get it.", "At most two user subscribers; one node built per execution, its peers are real nodes built layer by layer."),
'C33': ("A list of entries with the time until which each must be kept and after which it must be gone; the number of them which the overlay reports lies in between at every step of 100 ms, and every delivery is judged by them.", "Timeout of 3 s, collection every second, logs of 0 to 2 broadcasts. What is kept per source of a long broadcast is only bounded from above."),
}
props = [json.loads(l) for l in open(f'{here}/properties.jsonl')]
out = []
for p in props:
    pid = p['id']
    out.append(f"### {pid} {p['title']}\n")
    oracle, limits = TEXT[pid]
    out.append(f"Oracle: {oracle}\n")
    f = f'{here}/evidence/{pid}.json'
    if os.path.exists(f):
        e = json.load(open(f))
        cost = f"{e['wall_s']:.0f} s"
        out.append(f"Enumerated ({e['tier']}, {cost} on 8 cores):\n")
        suites = e['coverage']['suites']
        threads = [s for s in suites if s['name'].startswith('threads [')]
        for s in suites:
            if s in threads and len(threads) > 3:
                continue
            out.append(f"* *{s['name']}* – {s['about']} ({s['executions']} executions)")
        if len(threads) > 3:
            n = sum(s['executions'] for s in threads)
            out.append(f"* *threads* – {len(threads)} sets of calls in two to four threads, all interleavings up to the bound of preemptions ({n} executions)")
        out.append('')
        if e['assumptions']:
            out.append('Assumes: ' + '; '.join(e['assumptions']) + '.\n')
    if limits:
        out.append(f"Bounds: {limits}\n")
text = open(f'{here}/DESIGN.md').read()
a, b = '<!-- properties -->\n', '<!-- end of properties -->\n'
head, rest = text.split(a)
tail = rest.split(b)[1]
open(f'{here}/DESIGN.md', 'w').write(head + a + '\n'.join(out) + '\n' + b + tail)
