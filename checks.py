"""Jobs of every check: harness entry, parameters per tier, time limits (seconds), cover points that must be reached."""


def J(entry, quick=None, thorough=None, qt=60, tt=600, covers=(), note="", inst=200_000_000, **extra):
    """quick / thorough: lists of parameter lists; one engine run each. covers: points a complete run must reach."""
    return dict(entry=entry, quick=quick or [], thorough=thorough or [], qt=qt, tt=tt, covers=list(covers), note=note,
                inst=inst, extra=extra)


CHECKS = {
    "P01": dict(bounds="every frame kind; texts, byte strings and id lists of 0..max elements with symbolic contents; any split of a two-frame stream into two chunks", jobs=[
        J("p01_one", [[2, 2]], [[3, 3]], covers=[*range(10), 100], note="max list/text length, bytes following"),
        J("p01_large", [[12]], [[12]], covers=range(6), note="lengths of up to 1 MiB, contents symbolic at their ends"),
        J("p01_marker", [[2]], [[3]], covers=range(10)),
        J("p01_stream", [[1]], [[2]], covers=[*range(10), *range(20, 30), 100, 101], note="two frames, two chunks"),
    ]),
    "P02": dict(bounds="payloads of 0..n symbolic bytes, the first k unrestricted and the rest below 0x80; up to m bytes of a following frame; allocation sizes above 64 by one representative each", jobs=[
        J("p02_complete", [[14, 1, 14], [22, 1, 12]], [[16, 2, 16], [28, 1, 14], [40, 0, 13]], covers=[1, 2]),
        J("p02_partial", [[8]], [[16]], covers=[1, 2]),
        J("p02_stream", [[26, 13]], [[34, 13]], covers=[1, 2]),
    ]),
    "P23": dict(bounds="rings of up to n nodes with symbolic 64-bit positions (transparent hasher), sequences of up to n operations; three concurrent tasks with bounded preemptions and any scheduling order within the delay bound", jobs=[
        J("p23_ops", [[2]], [[3]], tt=1500, covers=[1, 3, 4, 5, 7, 8, 9]),
        J("p23_many", [[3]], [[4], [5]], covers=[1, 2]),
        J("p23_race", [[1, 1]], [[2, 2]], covers=[1, 2]),
    ]),
    "P03": dict(bounds="three senders and two receivers with any assignment of routes (pid, name, alias, several destinations), n messages each; symbolic payloads and destination lists of up to 2 (3); bounded preemptions and scheduling delays; every way to name up to 3 destinations; a mailbox of n messages", jobs=[
        J("p03_order", [[1, 1, 1, 6]], [[2, 1, 1, 6], [1, 1, 2, 6]], covers=[1]),
        J("p03_multi", [[2, 1], [5, 1, 2], [4, 0, 3]], [[3, 1], [7, 1, 2], [5, 0, 4]], covers=[1, 2]),
        J("p03_ending", [[1, 1]], [[2, 2]], covers=[0, 1, 2]),
        J("p03_dests", [[]], [[]], covers=range(13)),
        J("p03_many", [[1500]], [[4000]], covers=range(4)),
    ]),
    "P04": dict(bounds="mailboxes of up to n items of five kinds (numbers, moved or serialized, texts, exit messages) with symbolic values, filters by a symbolic threshold, sequences of k operations, arrivals while waiting under bounded scheduling; a mailbox of up to 40 (120) with any match in it", jobs=[
        J("p04_ops", [[2, 2], [3, 1]], [[3, 2], [2, 3]], tt=1200, covers=range(1, 8)),
        J("p04_strict", [[3]], [[4]], covers=[1, 2, 3]),
        J("p04_wait", [[1, 1]], [[2, 2]], covers=[1]),
        J("p04_many", [[40]], [[120]], covers=[1, 2]),
    ]),
    "P05": dict(bounds="all signal kinds with symbolic one-character texts, both trap settings, up to n signals; signal against signal and against the target's own end under bounded scheduling", jobs=[
        J("p05_seq", [[2]], [[3]], covers=[1, 2, 3]),
        J("p05_race", [[2, 2]], [[3, 3]], covers=[1, 2]),
        J("p05_self", [[]], [[]], covers=[0, 1, 2]),
    ]),
    "P06": dict(bounds="up to three processes, every way to end, links installed, doubled and removed at any moment; bounded preemptions and scheduling delays; one process with 20 (60) links", jobs=[
        J("p06_pair", [[]], [[]], covers=[1, 2]),
        J("p06_noproc", [[]], [[]], covers=[1]),
        J("p06_self", [[]], [[]], covers=[1]),
        J("p06_race", [[2, 1]], [[2, 2], [3, 2]], covers=[1, 2, 3]),
        J("p06_unlink_race", [[2, 1]], [[2, 2], [3, 2]], covers=[1, 2]),
        J("p06_both", [[2, 1]], [[2, 2], [3, 2]], covers=[1]),
        J("p06_spawn", [[2, 1]], [[2, 2], [3, 2]], covers=[0, 1, 2]),
        J("p06_many", [[20]], [[60]], covers=[0, 1]),
    ]),
    "P07": dict(bounds="monitors by pid, name, alias and spawn, every way to end, demonitor at every stage of the down message; bounded preemptions and scheduling delays; one process with 40 (100) monitors", jobs=[
        J("p07_one", [[]], [[]], covers=[0, 1, 2, 3, 10, 11, 12, 13]),
        J("p07_noproc", [[]], [[]], covers=[0, 1, 2]),
        J("p07_demonitor", [[]], [[]], covers=range(6)),
        J("p07_looked_at", [[]], [[]], covers=[0, 1, 2]),
        J("p07_race", [[2, 1]], [[2, 2], [3, 2]], covers=[1, 2]),
        J("p07_demonitor_race", [[2, 1]], [[2, 2], [3, 2]], covers=[0, 1]),
        J("p07_owner_ends", [[2, 1]], [[2, 2], [3, 2]], covers=[0, 1]),
        J("p07_spawn", [[2, 1]], [[2, 2], [3, 2]], covers=[0, 1, 2]),
        J("p07_many", [[40]], [[100]], covers=[1]),
    ]),
    "P08": dict(bounds="sequences of k registrations, removals, ends and lookups over two live, one dead and one remote process and two symbolic names; two concurrent threads of 1 and 1 (2) operations and an end, compared with every sequential order, under bounded scheduling; 40 (120) names", jobs=[
        J("p08_ops", [[3, 1]], [[4, 1], [3, 2]], tt=900, covers=range(1, 11)),
        J("p08_race", [[1, 1, 1, 1]], [[1, 1, 2, 1], [2, 1, 1, 1]], tt=900, covers=[1, 2, 3]),
        J("p08_down", [[2, 2]], [[3, 3]], covers=[1, 2]),
        J("p08_many", [[40]], [[120]], covers=[0, 1]),
    ]),
    "P09": dict(bounds="each kind of alias, sequences of k sends, removals, signals and ends; concurrent senders and removals under bounded scheduling; 40 (120) aliases", jobs=[
        J("p09_ops", [[3]], [[4]], tt=900, covers=range(1, 12)),
        J("p09_reply", [[2, 2]], [[3, 3]], covers=[1, 3]),
        J("p09_end_race", [[2, 1]], [[2, 2], [3, 2]], covers=range(1, 13)),
        J("p09_many", [[40]], [[120]], covers=[0, 1]),
    ]),
    "P10": dict(bounds="symbolic delays of up to 2^32 seconds with nanoseconds, symbolic instants of reading and cancelling; expiry against cancel under bounded scheduling; 40 (120) timers", jobs=[
        J("p10_one", [[]], [[]], covers=[1, 2, 3]),
        J("p10_cancel", [[]], [[]], covers=[1, 2]),
        J("p10_two", [[]], [[]], covers=[1]),
        J("p10_extreme", [[]], [[]], covers=[1]),
        J("p10_now", [[2, 1]], [[3, 2]], covers=[1]),
        J("p10_race", [[2, 1]], [[3, 2]], covers=[1, 2]),
        J("p10_dead", [[]], [[]], covers=[0, 1]),
        J("p10_many", [[40]], [[120]], covers=[1]),
    ]),
    "P11": dict(bounds="the three ways to spawn, every way to end, observers and signals at any moment; bounded preemptions and scheduling delays", jobs=[
        J("p11_start", [[2, 1]], [[3, 2]], covers=range(6)),
        J("p11_end", [[]], [[]], covers=range(1, 8)),
        J("p11_unique", [[2, 1]], [[3, 2]], covers=[1]),
        J("p11_once", [[2, 2]], [[3, 3]], covers=range(6)),
        J("p11_early", [[2, 2]], [[3, 3]]),
        J("p11_dying", [[]], [[]], covers=range(5)),
    ]),
    "P12": dict(bounds="one to three callers, every way to answer (at once, late, by others, twice, never, failing, ending), symbolic times and payloads; replies, deaths and timeouts at the same time; casts of two senders by every route; bounded preemptions and scheduling delays; up to four callers with 100 (400) casts each", jobs=[
        J("p12_call", [[]], [[]], covers=range(1, 7)),
        J("p12_nobody", [[]], [[]], covers=[0, 1, 2]),
        J("p12_many", [[1, 1, 2]], [[2, 2, 2], [1, 1, 3]], covers=[1]),
        J("p12_race", [[2, 2]], [[3, 3]], covers=[1, 2, 3]),
        J("p12_cast", [[1, 1, 1], [0, 1, 2]], [[2, 1, 1], [0, 2, 2]], covers=[1, 2]),
        J("p12_server", [[]], [[]], covers=[1, 2]),
        J("p12_queue", [[100]], [[400]], covers=range(1, 5)),
    ]),
    "P13": dict(bounds="every kind of initialisation, name, timeout and link with symbolic times; every way to end a server; two concurrent starts under one name, stops and failures; bounded preemptions and scheduling delays", jobs=[
        J("p13_start", [[]], [[]], covers=range(1, 8)),
        J("p13_name", [[1, 2]], [[2, 1], [2, 2]], covers=[1, 2, 3]),
        J("p13_again", [[2, 2]], [[3, 3]], covers=[0, 1, 2]),
        J("p13_stop", [[]], [[]], covers=[1, 2, 3]),
        J("p13_ends", [[]], [[]], covers=[1, 2, 3]),
        J("p13_race", [[2, 2]], [[3, 3]], covers=[1, 2]),
    ]),
    "P14": dict(bounds="n children of any restart types under any strategy, k ends of any kind one after another or (race) at the same time, restarts that fail, are ignored or take several tries; bounded preemptions and scheduling delays; one end among 12 (30) children", jobs=[
        J("p14_ends", [[3, 2]], [[3, 2], [4, 2], [3, 3]], tt=1200, covers=range(5)),
        J("p14_again", [[2, 2], [3, 1]], [[3, 3]], tt=900, covers=[1, 2, 3]),
        J("p14_race", [[0, 2], [1, 1]], [[2, 1], [1, 2]], tt=900, covers=[0, 1, 2]),
        J("p14_many", [[12]], [[30]], covers=range(4)),
        J("p14_meanwhile", [[]], [[]], covers=range(6)),
    ]),
    "P15": dict(bounds="k ends at symbolic times within a symbolic window of up to 2^30 seconds, up to max allowed restarts; windows of every length; failing restarts; a pending restart that someone else settles, under bounded scheduling", jobs=[
        J("p15_window", [[3, 1], [3, 2]], [[4, 1], [4, 2], [4, 3]], tt=900, covers=[1, 2, 3]),
        J("p15_extreme", [[]], [[]], covers=[1, 2]),
        J("p15_tries", [[]], [[]], covers=[1, 2, 3]),
        J("p15_settled", [[2, 1]], [[3, 2]], covers=[1, 2]),
    ]),
    "P16": dict(bounds="n children of any shutdown kind with symbolic limits and lingering times, every way to stop the supervisor; automatic shutdown of any kind after k ends; failures while starting; bounded preemptions and scheduling delays; 12 (30) children", jobs=[
        J("p16_stop", [[2], [3]], [[4]], tt=1200, covers=[1, 2, 3, 4]),
        J("p16_auto", [[3, 2]], [[3, 3]], tt=900, covers=[1, 2, 3]),
        J("p16_init", [[]], [[]], covers=[1, 2]),
        J("p16_race", [[0, 2], [1, 1]], [[2, 1], [1, 2]], tt=900, covers=[0, 1, 2]),
        J("p16_many", [[12]], [[30]], covers=[0, 1]),
    ]),
    "P17": dict(bounds="sequences of k operations over two identifiers with any outcome of a start; operations while a restart is pending; an operation against an end or another operation under bounded scheduling; 12 (30) children", jobs=[
        J("p17_ops", [[2, 2], [3, 1]], [[3, 2], [4, 1]], tt=1200, covers=range(1, 14)),
        J("p17_pending", [[]], [[]], covers=range(5)),
        J("p17_race", [[2, 1]], [[2, 2], [1, 3]], tt=900, covers=[1, 2, 3]),
        J("p17_many", [[12]], [[30]], covers=[0, 1]),
    ]),
    "P18": dict(bounds="sequences of k operations and ends over two symbolic keys, by name and by pid; two concurrent operations and an end under bounded scheduling; each shutdown kind with symbolic times; names, copies and registries without start function; 20 (60) keys of every type", jobs=[
        J("p18_ops", [[2]], [[3]], tt=900, covers=[1, 2, 3, 4, 5, 6, 10, 11]),
        J("p18_race", [[1, 1]], [[2, 1], [1, 2]], tt=900, covers=range(1, 6)),
        J("p18_removed", [[1, 1]], [[2, 1]], tt=900, covers=[1, 2]),
        J("p18_nostart", [[]], [[]], covers=range(5)),
        J("p18_stop", [[]], [[]], covers=range(1, 5)),
        J("p18_names", [[]], [[]], covers=range(4)),
        J("p18_other_name", [[]], [[]], covers=range(3)),
        J("p18_many", [[20]], [[60]], covers=range(3)),
        J("p18_lingers", [[]], [[]], covers=range(6)),
    ]),
    "P19": dict(bounds="handshakes in both roles against a peer that answers each step with any frame of the protocol, wrong or missing, with symbolic names, challenges and times up to 2^30 s; cookies of up to n symbolic bytes; names and addresses of up to n characters", jobs=[
        J("p19_proper", [[1]], [[2]], covers=[0, 1, 2]),
        J("p19_accept", [[]], [[]], covers=[*range(19), 30]),
        J("p19_silence", [[]], [[]], covers=[1, 2]),
        J("p19_blocked", [[]], [[]], covers=[1]),
        J("p19_dial", [[]], [[]], covers=[*range(24), 30]),
        J("p19_cookie", [[2]], [[3]], covers=[1, 2]),
        J("p19_cookie_nul", [[]], [[]], covers=[0, 1]),
        J("p19_identity", [[1, 0], [2, 1]], [[2, 0], [2, 1], [3, 1]], covers=[1, 2]),
        J("p19_options", [[]], [[]], covers=[1, 2, 3]),
    ]),
    "P20": dict(bounds="pids and references with symbolic numbers of any node kind, through messages to n known nodes, with and without a local node; two tasks meeting nodes at the same time under bounded scheduling; texts of n symbolic characters", jobs=[
        J("p20_round", [[]], [[]], covers=[1, 2, 3]),
        J("p20_alone", [[]], [[]], covers=[0, 1, 2]),
        J("p20_met", [[3]], [[4]], tt=900, covers=[*range(9), 20]),
        J("p20_race", [[1, 1]], [[2, 1], [1, 2]], covers=range(4)),
        J("p20_distinct", [[1, 1]], [[2, 1]], covers=range(4)),
        J("p20_text", [[1, 100]], [[2, 1000]], covers=range(4)),
    ]),
    "P21": dict(bounds="sequences of k operations (messages, exits, links, monitors by pid and name) between a local node and a scripted peer, in either direction, with symbolic numbers and contents; operations that race each other, the end of a process or the first connection under bounded scheduling; 70 (300) messages on their way, 70 (300) frames cut in two", jobs=[
        J("p21_send", [[2, 1]], [[3, 1], [2, 2]], covers=[*range(7), 20]),
        J("p21_out", [[3]], [[4]], tt=900, covers=[*range(6), 10, 11]),
        J("p21_lists", [[4]], [[6]], tt=900, covers=range(4)),
        J("p21_setup_race", [[2, 2]], [[3, 3]], covers=[1]),
        J("p21_exit", [[]], [[]], covers=[1, 2]),
        J("p21_link", [[3]], [[4]], tt=900, covers=[*range(1, 8), *range(10, 15)]),
        J("p21_monitor", [[3]], [[4]], tt=900, covers=[*range(6), *range(10, 15)]),
        J("p21_monitored", [[3]], [[4]], tt=900, covers=range(7)),
        J("p21_in_race", [[2, 2]], [[3, 3]], covers=range(4)),
        J("p21_out_race", [[2, 2]], [[3, 3]], covers=[*range(4), 10]),
        J("p21_many", [[70]], [[300]], covers=range(3)),
        J("p21_burst", [[70, 59], [3, 90]], [[300, 200], [3, 120]], covers=[0, 1]),
    ]),
    "P22": dict(bounds="a connection with links, monitors and messages of any kind installed in both directions that ends by close, silence, garbage, disconnect, forget, node stop or a panic; sequences of k operations over the states of a node; installations, arriving frames and reconnections that race the loss under bounded scheduling; 12 (40) processes that hold something", jobs=[
        J("p22_loss", [[]], [[]], covers=[*range(10), 20]),
        J("p22_attempt", [[]], [[]], covers=[*range(8), 20]),
        J("p22_ops", [[3]], [[4]], tt=900, covers=[*range(11), 20]),
        J("p22_race", [[1, 1]], [[2, 1], [1, 2]], tt=900, covers=range(5)),
        J("p22_in_race", [[1, 1]], [[2, 1], [1, 2]], tt=900, covers=[0, 1, 2]),
        J("p22_again", [[1, 1]], [[2, 1]], tt=900, covers=[0, 1, 2]),
        J("p22_many", [[12]], [[40]], covers=range(10)),
    ]),
    "P24": dict(bounds="semaphores of up to n permits with symbolic totals and counts, three concurrent takers of which one may be given up; tasks with symbolic values that return, panic or are shut down; bounded scheduling; 30 (100) tasks", jobs=[
        J("p24_sem", [[1, 1, 2]], [[2, 2, 2], [1, 1, 3]], covers=[2, 3, 4, 5]),
        J("p24_counts", [[2]], [[4]], covers=[1, 2]),
        J("p24_task", [[2, 2]], [[3, 3]], covers=range(8)),
        J("p24_many", [[]], [[]], covers=[1, 2]),
        J("p24_crowd", [[30]], [[100]], covers=range(1, 4)),
    ]),
    "P25": dict(bounds="one main process that lives, fails, panics or lingers for symbolic times, up to two signals at any times, every configuration; bounded preemptions and scheduling delays", jobs=[
        J("p25_run", [[]], [[]], covers=range(1, 5)),
        J("p25_defaults", [[]], [[]], covers=[0, 1]),
        J("p25_fails", [[]], [[]], covers=[1, 2]),
        J("p25_signals", [[0, 2], [1, 0]], [[1, 1], [0, 3]], tt=900, covers=[0, 1]),
        J("p25_test", [[]], [[]], covers=[0, 1]),
    ]),
    "P26": dict(bounds="one connection with k client actions of 13 kinds (messages, fragments, pings, closes, violations, ends, process messages) with symbolic bytes, any split in two reads, every kind of answer by each callback; other connections failing in nine ways; limits of 0..3 bytes; symbolic times; client, processes and signals at the same time under bounded scheduling; 50 (200) messages in any pieces; messages of eleven sizes up to 128 KiB", jobs=[
        J("p26_handler", [[1, 6, 13], [2, 3, 13]], [[2, 6, 13], [3, 2, 13]], tt=900, covers=[*range(13), 21, 22, 23]),
        J("p26_others", [[]], [[]], covers=[*range(9), 10, 11, 12]),
        J("p26_race", [[1, 1]], [[2, 1], [1, 2]], tt=900, covers=range(4)),
        J("p26_limits", [[]], [[]], covers=[0, 1, 2]),
        J("p26_server", [[]], [[]], covers=range(4)),
        J("p26_supervised", [[0, 1]], [[0, 2]], covers=[1]),
        J("p26_many", [[50]], [[200]], covers=range(4)),
        J("p26_sizes", [[11]], [[11]], covers=range(11)),
    ]),
}
