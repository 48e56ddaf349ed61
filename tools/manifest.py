#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = "seeded deterministic simulation of many callers on one engine"
T = {
    "C01": (ENG + "; linearizability of the recorded history against a reference model",
            "schedules at every shard lock, atomic access and dispatch boundary are random, not exhaustive; trusts the simulated reader-writer lock that replaces dashmap's and the reference model"),
    "C02": (ENG + "; conservation of sums and elements, and linearizability of returned values",
            "random schedules; trusts the simulated lock and the model's arithmetic"),
    "C03": ("seeded simulated histories with invalid requests; whole database compared with the reference model after every command",
            "random histories; the content is read through State::key_ref and its debug listing"),
    "C04": (ENG + " racing renames, writes and deletes; multi-key linearizability against a reference model",
            "random schedules; trusts the simulated lock"),
    "C05": ("seeded simulated links: requests built through the real builder, bytes split, delayed and pipelined by the scheduler, decoded by the real decoder and compared with an independent encoder",
            "random requests, sizes up to 70 kB (4 GiB limits only at the builder's checks); trusts the reference encoder"),
    "C06": ("seeded simulated links: values and errors encoded by the real code, fragmented by the scheduler, decoded by the real decoder and compared with an independent encoder",
            "random values; 4 GiB elements are out of reach; trusts the reference encoder"),
    "C07": ("whole server with pipelining clients on a simulated network with delays, short reads and writes, resets; responses compared with the reference model per connection",
            "random schedules and faults; tokio's runtime and sockets are simulated stand-ins"),
    "C08": ("whole server on a simulated network with misbehaving connections, failing accepts, resets, stalls and descriptor exhaustion; healthy connections must be answered within bounded steps",
            "random schedules and faults; tokio's runtime and sockets are simulated stand-ins"),
    "C09": ("networked clients shared by tasks, with cancellation, timeouts, breaking connections and a scripted misbehaving server on a simulated network; every answer is checked against the request it belongs to",
            "random schedules and faults; once a peer has sent undecodable bytes, unanswered requests on that connection are not judged"),
    "C10": ("networked clients and whole server with message faults, crash and restart on a simulated network; linearizability of the history with operations of unknown outcome",
            "random schedules and crash points; histories of bounded length, searches of bounded effort (undecided ones are counted in the evidence)"),
    "C11": ("twin execution of one generated program by an in-process and a networked client, answers, errors and database content compared",
            "random programs; the wrapping of errors is not compared"),
    "C12": ("generated client programs (every builder, typed reads, racing writers, hostile server) with answers checked for type and content",
            "random programs; a SET read back with .value() from a hostile server is not type-checked, it is documented as untyped"),
    "C13": ("racing writers and readers of the real metrics crate and statistics of every other scenario, checked for conservation, bounds of concurrent reads and stability of snapshots",
            "random schedules at every atomic access and lock"),
    "C14": ("racing creations and removals of sessions, linearizability against a set of sessions plus uniqueness and accounting",
            "random schedules; the 32-bit identifier's wrap-around is out of reach"),
    "C15": ("racing subscribe, unsubscribe and removal of sessions, linearizability of the answers and comparison of both sides of the registry at rest",
            "random schedules; the registry's key side has no public reader and is read from its debug listing, skipped if that changes form"),
    "C16": ("every concurrent scenario with locks, atomics, channels and timers under the simulator: a run in which some operation cannot finish (deadlock) or exceeds its step bound is reported",
            "random schedules; the simulated lock is writer-preferring or not by the scheduler's choice; bounds are steps, not time"),
    "C17": ("arbitrary and mutated bytes, in any fragmentation, given to decoders, server and client in simulation; panics, endless loops, excess memory, and health afterwards are checked",
            "random inputs; memory is bounded with a counting allocator"),
    "C18": ("the real timer on a simulated clock that stalls, jumps backwards, repeats or fails, compared with a reference stopwatch",
            "random operation sequences and clock faults; the clock is the standard library's, whose system call is answered by the simulator"),
    "C19": ("the command line binary on a simulated terminal (bytes in any pieces and timing) and its library on a networked client with crashes and resets, every answer compared with the reference model",
            "random lines; wording of errors is free except that the engine's known texts must not describe another error"),
    "C21": ("rounds of generated work that is undone again, on engine, server, clients and command line under simulation, with memory accounted per simulated process, tasks and connections counted; growth must stop",
            "random rounds, 60 to 500 of them; growth below 4 kB per stretch of rounds is not seen"),
    "C22": ("several engines and in-process clients, each owned by one simulated thread and used through cloned and dropped handles, interleaved at every lock and atomic; each compared with a reference model of its own",
            "random programs and schedules"),
    "C23": ("one to three whole servers in one simulation with generated environments; where they listen, how they end and what they answer is compared with the settings' meaning",
            "random settings; the environment and the network are stand-ins; addresses of other machines are not tried"),
    "C20": ("seeded simulated histories; every answer and the whole database compared with a reference model",
            "random histories; the model is a reading of the documentation and of the code where the documentation is silent"),
}
done = [p for p in (json.loads(l)["id"] for l in open(here + "/properties.jsonl")) if p in T]
m = {
    "version": 1,
    "setup_cmd": "./check.sh --setup",
    "hooks": {
        "guard": "cfg(hop_sim)",
        "enable": "RUSTFLAGS='--cfg hop_sim' (sim/env.sh)",
        "source_commits": HOOKS if (HOOKS := [
            l for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^sim hook:"],
                                      capture_output=True, text=True).stdout.split()]) else [],
    },
    "checks": [
        {
            "property": p,
            "quick_cmd": "./check.sh %s quick" % p,
            "thorough_cmd": "./check.sh %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation: " + T[p][0],
            "level": "exploration",
            "level_note": T[p][1],
        }
        for p in done
    ],
    "not_applicable": [
        {"property": json.loads(l)["id"], "reason": "check under construction"}
        for l in open(here + "/properties.jsonl") if json.loads(l)["id"] not in T
    ],
}
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
