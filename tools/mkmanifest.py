#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
PK = ('explicit TLA+ specification (spec/Packet.tla and the modules it extends) explored with TLC; behaviours TLC generates '
      'are replayed into the classes /repo generates, built with AddressSanitizer, and every observation is compared with the specification state')
CL = dict(
 C01=(PK, 'random exploration of histories up to 40-60 operations over 30+ classes using every context field; not exhaustive'),
 C02=(PK, 'same histories, with reconstruction from bytes at random points and continued modification'),
 C03=(PK, 'size read at every point of the same histories'),
 C05=(PK, 'histories of payload, trailer and timestamp edits over six data classes'),
)
PR = ('explicit TLA+ specification (spec/Probe.tla): TLC generates packets of every class and, for each, the verdict of every class on it and on '
      'systematically deviating or damaged versions; the generated classes must give the same verdicts')
CL.update(
 C09=(PR, 'every single-bit deviation of the fixed part of random packets of 60+ classes, all pairs of classes in a file, and random multi-attribute deviations'),
 C10=(PK, 'acknowledgement classes of two fixed and 8 generated definition files; histories up to 50 operations'),
 C15=(PK, 'fixed and TLC-generated definition files (spec/GenDefs.tla): and runs of the generator (spec/GenRun.tla): files written, determinism, compilation, initial state and interface of every class'),
 C16=(PK, 'acknowledgement classes of fixed and TLC-generated control definitions; histories up to 40 operations'),
 C18=(PR, 'every declared size, every truncation and random damage of random packets, under AddressSanitizer with container annotations'),
)
CD = ('explicit TLA+ specification of the word and field formats (spec/Codec.tla): TLC checks locality, round trip and the enable-pair rule on it, enumerates '
      'every member of every class with bit-covering values from all-zero and all-one states and generates random histories; all are replayed into the header library')
CL.update(
 C04=(CD, 'every member of 40 word and structure classes systematically, plus random histories with over-wide values; values of wide members sampled'),
 C06=(CD, 'trailer and state/event words systematically; user-defined trailers and discrete I/O through packet histories of fixed and TLC-generated definitions'),
 C07=(CD, 'every fixed format systematically, variable-length formats over random contents; placement of following fields by packet histories'),
 C08=(CD + '; whole-range sweeps recorded from the real code are judged by TLC (spec/Sweep.tla)', '16-bit quantities exhaustively with quarter steps, 32/64-bit in dense windows and strides, through the field classes and generated packets'),
)
EX = ('explicit TLA+ specification of the command exchange (spec/Exchange.tla): TLC generates histories of the generated %s, checks '
      'the answers and results are each command\'s own on every step, and the histories are replayed into the generated classes over TCP, UDP and '
      'an in-process NATS stand-in; every handler call, packet and result is compared with the specification')
CL.update(
 C11=(EX % 'controllee', '3 systems covering all pairs of requestable acknowledgements (thorough: all 27 combinations of off/optional/required), interleaved foreign and damaged messages, segmented streams; random histories'),
 C12=(EX % 'controller', 'missing, reordered, repeated, late, foreign, incomplete and wrong-kind replies at random; thorough uses all 27 combinations of requestable acknowledgements'),
 C13=('explicit TLA+ specification of NATS clients (spec/NatsClient.tla), model-checked exhaustively with TLC in a small world (spec/MCNats.tla); TLC-generated '
      'scenarios run on the real client under a deterministic scheduler, and TLC checks every record of calls, returns and library traffic to be a behaviour of the specification',
      '160 scenarios x 60 schedules (thorough 1600 x 200), random and priority schedules with hand-overs at every function call; NATS C library replaced by a stand-in'),
 C14=('explicit TLA+ specification of the definition language (spec/Schema.tla: which documents are definition files, and what each says); TLC draws '
      'documents (spec/GenSchema.tla), valid and damaged, each written in several equivalent ways, asserts the meaning does not depend on the writing, and '
      'the parser and generator read histories of them: verdict, parsed model and generated files are compared with the specification',
      'about 700 documents in 8 processes (thorough 9000), each accepted one read twice in different company; verdicts the documentation leaves open are not exercised'),
 C17=(EX % 'data/context receiver', 'datagrams arriving while reception is toggled at random moments, listeners replaced or removed, destruction under traffic; schedules sampled by the real scheduler'),
 C19=(PK, 'attribute selections on required and optional fields of all three words, histories up to 40 operations over 9 fixed and 4 (thorough 60) TLC-generated classes, acknowledgements included'),
 C20=('explicit TLA+ specification of sockets and endpoints (spec/Transport.tla): histories TLC generates are replayed over loopback sockets, with '
      'descriptor ownership observed from outside', 'random histories of creation, moves, connection, sending, closing over UDP/TCP, IPv4/IPv6'),
)
NA = {}
checks = [dict(property=p, quick_cmd=f'python3 check.py {p} --tier quick', thorough_cmd=f'python3 check.py {p} --tier thorough',
               technique=CL[p][0], level=(CL[p][2] if len(CL[p]) > 2 else 'model_checking'), level_note=CL[p][1]) for p in ids if p in CL]
m = dict(version=1, setup_cmd='true', checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, 'check not built yet')) for p in ids if p not in CL],
         notes='Specification language: TLA+, checked with TLC. See DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
