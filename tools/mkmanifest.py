#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
PAIR = ("Each case forks a process that loads the freshly built libsudo_pair.so (debug or release), calls its C descriptor as sudo would under a "
        "libc-interposing shim, and plays terminal, filesystem, pair, other users and failing system calls. No violation among the generated cases; "
        "trusts the reference model, the shim and the running kernel.")
PLUG = ("Probe plugins built with the public macro against /repo/sudo_plugin are driven through their C callbacks with generated arguments in guard-paged "
        "memory and compared with a reference model. No violation among the generated cases; trusts the model.")
ABI = ("A C host compiled against sudo's header exchanges generated values, arguments and calls with the Rust declarations and the built plugins. No violation among the "
       "generated cases; trusts gcc and the pinned header.")
SCRIPT = ("The real script is run by the shell with sudo, socat, id, stat and the /proc and /var paths it uses replaced by recording stand-ins in a scratch directory. "
          "No violation among the generated cases; trusts the stand-ins.")
T = {
 'C01': ('property-based testing of generated session environments against a reference model of the exemption rule', PAIR),
 'C02': ('property-based testing of generated answers, hang-ups and injected system-call failures', PAIR),
 'C03': ('property-based testing with permission snapshots at every system call and connection attempts by generated identities', PAIR),
 'C04': ('property-based testing of generated socket directories and pre-existing files with before/after snapshots', PAIR),
 'C05': ('property-based fault injection with process-state and directory invariants', PAIR),
 'C06': ('property-based testing of generated signal schedules inside blocking calls', PAIR),
 'C07': ('stateful property-based testing of callback histories against a byte-stream model, with short and interrupted writes', PAIR),
 'C08': ('stateful property-based testing of callback histories with generated hang-up points', PAIR),
 'C09': ('property-based testing of generated log hints and stdin data', PAIR),
 'C10': ('property-based differential testing of the template expander against a reference expander', PAIR),
 'C11': ('property-based differential testing of rendered prompts against a reference model of sudo\'s reports', PAIR),
 'C12': ('property-based testing of generated terminals, templates and failing message channels', PAIR),
 'C13': ('property-based testing of generated plugin option vectors against a model of the defaults', PAIR),
 'C14': ('property-based testing of generated option vectors in guard-paged memory against a reference parser', PLUG),
 'C15': ('property-based testing of generated keys, values and types against a reference conversion', PLUG),
 'C16': ('property-based testing of generated settings, user and command vectors against a model of sudo_plugin(5)', PLUG),
 'C17': ('property-based testing of generated reports against a model of the derived values', PLUG),
 'C18': ('property-based testing of generated API versions', PLUG),
 'C19': ('stateful property-based testing of callback histories with generated panics', PLUG),
 'C20': ('stateful property-based testing of callback histories with generated errors', PLUG),
 'C21': ('stateful property-based testing of log callbacks with generated hints and data', PLUG),
 'C22': ('stateful property-based testing of open/close/version histories against a life-cycle model', PLUG),
 'C23': ('property-based testing of generated texts and failing message functions', PLUG),
 'C24': ('property-based differential testing of generated values and calls exchanged between C and Rust', ABI),
 'C27': ('stateful property-based testing of generated call histories against the built example plugin', ABI),
 'C25': ('property-based testing of generated arguments, sockets and identities with recording stand-ins', SCRIPT),
 'C28': ('property-based fault injection with an oracle for the reason each refusal must give', PAIR),
 'C29': ('property-based testing of generated sessions with a recording log daemon against a model of the audit records', PAIR),
 'C30': ('stateful property-based testing of generated interleavings of several plugins\' histories against the model of each alone', PLUG),
 'C26': ('stateful property-based testing of generated interleavings of several sudo processes', PAIR),
}
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
ABSENT = 'its check is not built yet'
json.dump({
 'version': 1,
 'setup_cmd': './run.sh setup',
 'checks': [{'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': './run.sh ' + i, 'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]} for i in ids if i in T],
 'not_applicable': [{'property': i, 'reason': ABSENT} for i in ids if i not in T],
 'notes': 'VERIF_SEED and VERIF_TIER choose the seed and the number of cases; ./run.sh <id> --replay FILE reruns one recorded case.',
}, open('MANIFEST.json', 'w'), indent=1)
