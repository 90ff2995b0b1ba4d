#!/usr/bin/env python3
"""Development tool: makes a planted bug.  mkseed.mk(id, property, needs, breaks, edits=[(file, old, new[, nth])], files={name: text}, demo=text)"""
import os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PEER = r'''/* in-process peer: the library talks over two pipes whose other ends the test holds */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include "trax.h"
static int to_lib[2], from_lib[2];
static void peer_open(void) {
    signal(SIGPIPE, SIG_IGN);
    if (pipe(to_lib) || pipe(from_lib)) exit(99);
    fcntl(from_lib[0], F_SETFL, O_NONBLOCK);
}
static void say_n(const char* s, size_t n) { if (write(to_lib[1], s, n) != (ssize_t)n) exit(99); }
static void say(const char* s) { say_n(s, strlen(s)); }
static char heard_buf[1 << 20];
static const char* heard(void) { /* everything the library has written since the last call */
    int n = 0, k;
    while ((k = read(from_lib[0], heard_buf + n, sizeof(heard_buf) - 1 - n)) > 0) n += k;
    heard_buf[n] = 0; return heard_buf;
}
static int count(const char* hay, const char* needle) { int n = 0; while ((hay = strstr(hay, needle))) { n++; hay += strlen(needle); } return n; }
static trax_logging nolog(void) { trax_logging l; memset(&l, 0, sizeof(l)); return l; }
static trax_handle* server_open(int regions, int images, int channels, int flags, int version) {
    trax_metadata* m = trax_metadata_create(regions, images, channels, "demo", NULL, NULL, flags);
    trax_handle* h; peer_open();
    h = trax_server_setup_file_v(m, to_lib[0], from_lib[1], nolog(), version);
    trax_metadata_release(&m);
    if (!h) { printf("no server\n"); exit(98); }
    heard(); return h;
}
static trax_handle* client_open(const char* hello) {
    trax_handle* h; peer_open(); say(hello);
    h = trax_client_setup_file(to_lib[0], from_lib[1], nolog());
    if (!h) { printf("no client\n"); exit(98); }
    heard(); return h;
}
#define HELLO4 "@@TRAX:hello \"trax.version=4\" \"trax.region=rectangle;polygon;mask;\" \"trax.image=path;url;memory;buffer;\" \"trax.channels=color;\"\n"
#define HELLO4M "@@TRAX:hello \"trax.version=4\" \"trax.region=rectangle;polygon;mask;\" \"trax.image=path;url;memory;buffer;\" \"trax.channels=color;\" \"trax.multiobject=1\"\n"
#define HELLO3 "@@TRAX:hello \"trax.version=3\" \"trax.region=rectangle\" \"trax.image=path\" \"trax.channels=color\"\n"
#define CHECK(c, msg) do { if (!(c)) { printf("FAILED: %s\n", msg); exit(1); } } while (0)
'''
DEMO_C = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
%(cc)s -g -w -I/repo/include -I/repo/src -I/repo/support/client/include -I/repo/support/client -I"$here" %(flags)s -o "$d/demo" "$here/%(src)s" %(libs)s || exit 97
cd "$d" && TMPDIR="$d" timeout 120 ./demo
'''
def demo_c(src='demo.c', cc='gcc', flags='', libs='/repo/_build/libtraxstatic.a -lm -lpthread'):
    return DEMO_C % dict(src=src, cc=cc, flags=flags, libs=libs)
def mk(id, prop, needs, breaks, edits, files, demo):
    d = V + '/seeded/' + id
    w = tempfile.mkdtemp(prefix='mkseed')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (w, w), shell=True)
        for e in edits:
            f, old, new = e[:3]; nth = e[3] if len(e) > 3 else 0
            p = os.path.join(w, f); s = open(p, newline='').read()
            if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            k = s.count(old)
            if k <= nth or (k > 1 and len(e) < 4): raise SystemExit('%s: %d matches for %r in %s' % (id, k, old, f))
            i = -1
            for _ in range(nth + 1): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
            open(p, 'w', newline='').write(s)
        diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
    finally: shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w', newline='').write(diff)
    open(d + '/demo.sh', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    for n, t in files.items(): open(d + '/' + n, 'w').write(t)
    # lines removed or changed must be original ones
    base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
    for f in set(e[0] for e in edits):
        bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', 'HEAD', '--', f], text=True).split('\n')
        for h in diff.split('diff --git')[1:]:
            if ' b/%s\n' % f not in h: continue
            ln = 0; ok = False; any_ = False
            for l in h.split('\n'):
                if l.startswith('@@'): ln = int(l.split('-')[1].split(',')[0].split(' ')[0]); continue
                if l.startswith('---') or l.startswith('+++') or not ln: continue
                if l.startswith('-'):
                    any_ = True
                    if bl[ln - 1].lstrip('^').startswith(base[:20]): ok = True
                    else: print('%s: %s:%d is not an original line' % (id, f, ln))
                    ln += 1
                elif l.startswith(' '): ln += 1
            if any_ and not ok: print('%s: NO ORIGINAL LINE CHANGED in %s' % (id, f))
    print('made', id)
