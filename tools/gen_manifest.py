#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
IDS = [json.loads(l)['id'] for l in open('properties.jsonl')]
SEQ = 'explicit-state model checking: all operation sequences to a depth run on the real code against a reference model'
ENUM = 'bounded exhaustive enumeration of inputs on the real code'
CHECKS = {
 'C01': (ENUM + ': every payload of the families x encoding x level x key pair, with an independent implementation as oracle in both directions', 'exploration', 'All lengths and short byte strings within the bounds; longer payloads at boundaries only; trusts the cryptographic and compression crates.'),
 'C02': (ENUM + ': every single edit, bit flip, truncation, splice, relabelling and wrong key of genuine messages, and all short field contents', 'exploration', 'Structural alterations only; forging a tag or signature by cryptanalysis is assumed impossible.'),
 'C03': (ENUM + ': all short byte strings and names, structured long inputs, every alteration of ciphertexts, against independent implementations', 'exploration', 'All inputs within the bounds; longer inputs at boundaries only.'),
 'C04': (ENUM + ': key grid with the boundaries of the group, all pairs, salts, messages, and every alteration of stored keys, signatures and capsules', 'exploration', 'Keys of the grid and every single alteration of their stored forms; the k256 crate decides which bytes are keys.'),
 'C05': (ENUM + ': product of variants, optional parts and boundary values of every wire type, compared with standard forms written down independently', 'exploration', 'All combinations over the value menus of the bound; other values only as far as they resemble these.'),
 'C06': (ENUM + ': every document one or two changes away from a valid one, all small documents, all short tokens, names and codes, judged by an independent description of the standard', 'exploration', 'All documents of the bounded families; others only as far as they resemble these.'),
 'C07': (ENUM + ': truth tables of seeds, signature kinds and claimed against actual keys for everything carrying a proof or certificate', 'exploration', 'All combinations over the menus of the bound; cryptanalytic forgeries are assumed impossible; rare outputs of the random generator are not enumerated.'),
 'C08': (SEQ + ', all forged requests of a menu tried in every state reached', 'model_checking', 'Every history within the depth, and every forgery of the menu to every endpoint in each state; other forgeries only as far as they resemble these.'),
 'C09': (SEQ + ' (table driver and server endpoints)', 'model_checking', 'Every sequence of registrations, announcements, disconnects and restarts within the depth on the real table and endpoints, every lookup and listing compared with a reference model; longer histories only for single growing tables.'),
 'C10': (SEQ, 'model_checking', 'Every sequence of sends, polls and restarts within the depth is executed on the real inbox and server endpoints and compared with a FIFO model step by step; trusts the harness model and that histories beyond the depth add nothing new.'),
 'C11': (SEQ + ', all pairs of hostile inbox names, every path given to the OS checked', 'model_checking', 'All pairs and the whole set of a list of hostile names and of names derived from the files the implementation creates; other names are covered only as far as they resemble these.'),
 'C12': ('stateless model checking: preemption-bounded exhaustive schedule exploration of the real inbox under a controlled scheduler, linearizability oracle', 'model_checking', 'All schedules of up to three callers within the preemption bound; scheduling points are file-system calls and blocking synchronisation.'),
 'C13': ('exhaustive crash-point and torn-write enumeration on the real code (also double crashes), and abandonment at every suspension under all bounded schedules', 'fault_enumeration', 'Process crashes: completed system calls persist in order; power loss that reorders unsynced writes is not modelled.'),
 'C14': ('exhaustive single-fault enumeration over every system call of every operation in bounded histories', 'fault_enumeration', 'One fault, or one period of a full disk, per history; errno menus per kind of call.'),
 'C15': ('stateless model checking: preemption-bounded exhaustive schedule exploration of the real routing table under a controlled scheduler, per-key linearizability oracle', 'model_checking', 'All schedules of two or three callers within the preemption bound; scheduling points are file-system calls and blocking synchronisation.'),
 'C16': ('exhaustive crash-point, torn-write and single-fault enumeration on the real routing table', 'fault_enumeration', 'Process crashes and one fault per history; power loss that reorders unsynced writes is not modelled.'),
 'C17': ('exhaustive enumeration of every answer from a menu of honest, forged, replayed and malformed answers (all pairs for two-step operations) against the real client', 'fault_enumeration', 'Every client operation against every answer of the menu and every transport failure; forgeries outside the menu are covered only as far as they resemble these.'),
 'C18': ('explicit-state model checking: all networks up to a size, every hint relation and server behaviour, run on the real client and compared with a reachability model', 'model_checking', 'All networks of the bounded sizes and behaviours; larger networks are covered only by families (chains, cycles, complete graphs).'),
 'C19': ('explicit-state model checking: all networks up to a size, every knowledge and failure, run on the real traversal and compared with a reachability model', 'model_checking', 'All networks of the bounded sizes and behaviours; larger networks are covered only by families.'),
 'C20': ('exhaustive enumeration of address forms and of their single edits against an independent parser; resolution on all placements of the client in a network of real servers', 'model_checking', 'All documented prefixes, keys of a grid and types, and single edits of them; other strings only as far as they resemble these.'),
 'C21': ('explicit-state model checking: all operation sequences to a depth with every pattern of gateway failures, run on the real forwarder against a simulated gateway', 'model_checking', 'All histories within the depth over the ports and protocols of the bound; the gateway is a simulation at the level of easy_upnp calls; concurrent use is not explored.'),
 'C22': (ENUM + ' and request histories over real loopback connections: registration orders, contents, sequences of good, malformed and unfinished requests, completion orders, endpoint histories compared with direct calls, scripted answers to the client', 'exploration', 'All sequences of request kinds within the depth and all cases of the menus; the schedules inside hyper, tokio and the kernel are not controlled.'),
 'C23': ('explicit-state model checking of a network of clients and servers: every history to a depth and every transition of the reachable model states to a greater depth is replayed on the real client and server middleware and compared', 'model_checking', 'Two talking clients and a stranger on two or three servers, all operation sequences within the bounds; requests are handled one at a time.'),
}
checks = [dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'env VERIF_TIER=thorough ./check.sh {i}', evidence_file=f'evidence/{i}.json',
               technique=CHECKS[i][0], level=CHECKS[i][1], level_note=CHECKS[i][2]) for i in IDS if i in CHECKS]
na = [dict(property=i, reason='check under construction') for i in IDS if i not in CHECKS]
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='No hooks: the harness interposes libc symbols in its own binary and uses only the public API. Findings: known-findings.txt.'),
    open('MANIFEST.json', 'w'), indent=1)
