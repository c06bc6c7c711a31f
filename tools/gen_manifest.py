#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it after editing)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = " Holds for the executions run; trusts the harness's own servers, reference codec and clock."
NOTES = {
    "C01": ("differential runtime monitor: canonical-form oracle on generated values", "An independent encoder and parser judge every result of encode and decode on all boundary shapes and many random nested values."),
    "C02": ("differential runtime monitor: strict reference parser, mutation and exhaustive short inputs", "Every byte string over the bencode alphabet up to a small length, every truncation, single edits of valid messages, deep nesting and huge lengths are classified by an independent strict parser."),
    "C03": ("differential runtime monitor over a fixed protocol table", "Every packet type of an independently written protocol table with generated, boundary and ill-typed fields, and corruptions of type and arity."),
    "C04": ("online trace monitor at a loopback websocket server, hostile message fuzzing", "The running agent is fed hostile message sequences; the monitor demands in-order service, exact pongs, no other effect and a live connection."),
    "C05": ("wire monitor under thread stress and systematic single preemptions", "Real threads send through the real websocket with injected delays; every line of the send path is a preemption point once. The server decodes each frame independently."),
    "C06": ("offline stream-conservation checker with injected preemptions", "Unique position-marked streams over many channels, readers and closes; conservation and order checked per channel; all single preemptions of read/deliver/close."),
    "C07": ("callback history monitor across closes and all kinds of connection loss", "Each close callback must be seen exactly once and reused numbers must be fresh, with raising callbacks and services attached."),
    "C08": ("exactly-once checker over recorded callback histories, single-preemption sweeps", "Model of pending callbacks compared with recorded invocations over random histories, threads, and every preemption point of register/respond/lose."),
    "C09": ("API trace monitor under enumerated API failures", "Recorded API requests are checked against the assigned identities for every failure kind at every attempt and for random histories."),
    "C10": ("connection trace monitor under enumerated failures", "Every way of failing to connect and of losing the connection, idle and under load; join counts, back-off bounds and renewed service are monitored."),
    "C11": ("resource-counting monitor at the outside ends of services", "The number of running commands, forwards, reads and terminals is counted at the far ends (processes, local sockets, channels), for every way a service can end."),
    "C12": ("end-to-end stream monitor on both sides of each forwarded connection", "Exact or prefix equality of both byte streams under injected delays, slow peers, resets, closes and lost connections, and at each preemption point of connecting."),
    "C13": ("event monitor at loopback servers: destination, end propagation, isolation", "Which server got which connection, how quickly ends propagate, and that bystander connections keep working, for every way of ending."),
    "C14": ("wire monitor against real commands with a reference of their output and status", "Real shell commands with known output, error output and exit status or signal; trace checked for exact output, one completion message, one close."),
    "C15": ("wire monitor against files with known contents", "Files of boundary sizes, special files, failing reads injected; closing in mid-transfer."),
    "C16": ("end-to-end stream monitor against real terminal processes", "Raw-mode processes in real ptys report exactly what they got and what size they see; streams are compared at both ends, with slow connections and early input."),
    "C17": ("process-table monitor around every closing moment", "Real processes that obey or ignore hang-ups, closed at every preemption point of opening; /proc is watched until nothing remains."),
    "C18": ("identity monitor: the terminal's own process reports its uid and gid", "All combinations of existing, missing and forbidden users and groups, as root and unprivileged; anything run with other ids is reported."),
    "C19": ("file-effect monitor: confined unprivileged run with canaries and a full before/after image", "Hostile paths and ids in all requests; every file read, created, changed or deleted outside the allowed places is detected by content marks and directory images."),
    "C20": ("snapshot oracle over random request histories with concurrent changes", "A model of each upload's snapshot judges every read result while the original is changed at random and under preemption."),
    "C21": ("assembly oracle over random chunkings with directory images", "The resulting directory is compared with a model after each request, with clashes, missing folders and injected I/O failures."),
    "C22": ("differential monitor against an independent lister on generated trees", "Random trees with links, loops, specials, odd names and unreadable directories."),
    "C23": ("continuous reader plus crash and fault injection around publication", "Readers poll the published file during scans; the scanning process is killed at each file operation; results on the wire are matched to requests."),
    "C24": ("wire-level monitor at a scripted API", "All reply shapes for calls and batches, id orders, duplicate calls and transport failures."),
    "C25": ("API trace monitor with a scripted clock under enumerated failures", "Model of what still has to be reported judges every poll's batches."),
    "C26": ("scripted-clock monitor of the real watch thread", "Clock scripts with jumps around the threshold; the recorded signals must match exactly."),
    "C27": ("taint monitor: unique secrets searched in every log record and byte sent", "All log levels, hostile replies and messages, request failures and packets; secrets are searched for in several spellings."),
    "C28": ("effect monitor: processes, connections, scans and API calls attributed to instructions", "Well-formed, near-miss and malformed instructions; every effect must be owed to exactly one instruction."),
    "C29": ("differential monitor with real scripts printing generated bytes", "Generated outputs, exit statuses and missing or non-executable scripts against an independent word splitter."),
    "C30": ("leak monitor: threads, descriptors, processes and buffers before and after histories", "Random histories of all services, repeated so that a leak grows; compared after quiescence."),
    "C31": ("black-box monitor of the real command line at loopback servers", "Random combinations of arguments, environment and files compared with a precedence model, and invalid ones with an exit status."),
    "C32": ("poll trace monitor of the real process under API faults and signals", "Poll times, overlap and shutdown behaviour are recorded for hostile API behaviours."),
    "C33": ("differential monitor: reports received by a fake API against an independent reading of the device", "Generated kernel and release files (absent, unreadable, odd encodings), and network namespaces whose addresses come and go between failed and successful reports."),
    "C34": ("fault injection with kernel limits on a whole agent process, watched at the m2m server and in /proc", "Every request at every small number of remaining descriptors and of remaining threads and processes, and ends of services and connections in want; then full service, all slots and nothing left behind are demanded."),
    "C35": ("conservation monitor: records made by many threads against records found in the log", "Whole processes of the command line with generated records, levels, places, locales, log rotation and broken logs; and the answers of the other commands."),
    "C36": ("wire monitor behind TLS fronts with good and bad certificates", "Fronts before loopback servers show generated certificates of 12 kinds or break the handshake, at any point of an agent's history, and report every byte that comes through."),
    "C37": ("liveness monitor with a scripted server that falls silent, under a faster clock", "Servers that go silent in nine ways, idle and under load, and slow ones; the next join, the services on it and the processes left are observed."),
    "C38": ("adversarial observer: a process of another user that looks and lays traps all the time", "Histories of uploads, downloads and scans under several umasks, with traps of nine kinds in the agent's places; contents, other files and everything the other user could open are judged."),
    "C39": ("latency monitor under stuck services: timed probes of every kind next to services that get nowhere", "Rounds of stuck commands, files, terminals, forwards and scans, poked, closed, reused and cut off; pings and new and old services must be served within a bound."),
    "C40": ("heap census: every object the collector knows counted by type after blocks of equal work", "Blocks of one kind of work after another, with all kinds of ends; what grows with every block is a leak."),
    "C41": ("crash-point enumeration with recovery oracle: agent processes killed at the n-th line, at random times and between requests", "Histories of uploads and downloads over several lives of the agent; acknowledged state must persist, the rest can be repeated, and only complete files show."),
}


def main():
    ids = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, missing = [], []
    for pid in ids:
        if not os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
            missing.append({"property": pid, "reason": "No check has been built yet."})
            continue
        technique, note = NOTES[pid]
        checks.append({"property": pid, "quick_cmd": "bin/check %s --tier quick" % pid,
                       "thorough_cmd": "bin/check %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": "runtime monitoring: " + technique,
                       "level": "exploration", "level_note": note + COMMON})
    manifest = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": missing,
                "notes": "No hooks in /repo are needed: the monitors sit at the agent's own boundaries and install stand-ins when they import it."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


main()
