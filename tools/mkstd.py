#!/usr/bin/env python3
"""Copy rust-src, with hooks for the order of hash containers and for the schedule of threads.

mkstd.py FOLDER [--native]. The copy differs from the toolchain's own library in these places:
 * locks (Mutex, RwLock) call `__v_sync_point` before they are taken and after they are released, and
   `__v_blocked` while they have to wait: the points at which another thread may go on,
and, except for native builds,
 * std::hash::DefaultHasher yields a constant (every hash value is possible in reality, since the
   keys of RandomState are random; what the hash decides is only the slot an entry lands in), and
 * hashbrown asks the executor (`__v_map_slot`) which free slot of the probed group an insertion takes.
Lookup still goes through the real probing and the real key comparison.
"""
import os, shutil, subprocess, sys

def sub(path, old, new, count=1):
    s = open(path).read()
    if old not in s:
        sys.exit("mkstd: pattern not found in %s: %r" % (path, old))
    open(path, "w").write(s.replace(old, new, count))

HOOKS = """
unsafe extern "C-unwind" {
    fn __v_sync_point(kind: usize);
    fn __v_blocked();
}
"""


def locks(lib):
    m = os.path.join(lib, "std/src/sys/sync/mutex/futex.rs")
    sub(m, "pub struct Mutex {", HOOKS + "pub struct Mutex {")
    sub(m, """        if self.futex.compare_exchange(UNLOCKED, LOCKED, Acquire, Relaxed).is_err() {
            self.lock_contended();
        }
""", """        unsafe { __v_sync_point(0) };
        while self.futex.compare_exchange(UNLOCKED, LOCKED, Acquire, Relaxed).is_err() {
            unsafe { __v_blocked() };
        }
""")
    sub(m, "        self.futex.compare_exchange(UNLOCKED, LOCKED, Acquire, Relaxed).is_ok()",
        "        unsafe { __v_sync_point(0) };\n        self.futex.compare_exchange(UNLOCKED, LOCKED, Acquire, Relaxed).is_ok()")
    sub(m, "            self.wake();\n        }\n", "            self.wake();\n        }\n        unsafe { __v_sync_point(1) };\n")
    sub(m, "    #[cold]\n    fn lock_contended", "    #[cold]\n    #[allow(dead_code)]\n    fn lock_contended")
    w = os.path.join(lib, "std/src/sys/sync/rwlock/futex.rs")
    sub(w, "pub struct RwLock {", HOOKS + "pub struct RwLock {")
    for kind in ("read", "write"):
        sub(w, "    pub fn %s(&self) {" % kind,
            "    pub fn %s(&self) {\n        unsafe { __v_sync_point(0) };\n        while !self.try_%s() {\n            unsafe { __v_blocked() };\n        }\n"
            "    }\n\n    #[allow(dead_code)]\n    fn old_%s(&self) {" % (kind, kind, kind))
    sub(w, "            self.wake_writer_or_readers(state);\n        }\n",
        "            self.wake_writer_or_readers(state);\n        }\n        unsafe { __v_sync_point(1) };\n", 2)


def main(dst, native=False):
    sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    src = os.path.join(sysroot, "lib/rustlib/src/rust")
    tmp = dst + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, tmp, symlinks=True)
    lib = os.path.join(tmp, "library")
    locks(lib)
    if native:
        os.rename(tmp, dst)
        return
    shutil.copytree(os.path.join(lib, "vendor/hashbrown-0.17.1"), os.path.join(lib, "hashbrown"))
    sub(os.path.join(lib, "Cargo.toml"), "[patch.crates-io]", "[patch.crates-io]\nhashbrown = { path = 'hashbrown' }")
    sub(os.path.join(lib, "Cargo.lock"),
        'name = "hashbrown"\nversion = "0.17.1"\nsource = "registry+https://github.com/rust-lang/crates.io-index"\n'
        'checksum = "ed5909b6e89a2db4456e54cd5f673791d7eca6732202bbf2a9cc504fe2f9b84a"\n',
        'name = "hashbrown"\nversion = "0.17.1"\n')
    rnd = os.path.join(lib, "std/src/hash/random.rs")
    sub(rnd, "self.0.write(msg)", "let _ = msg;")
    sub(rnd, "self.0.write_str(s);", "let _ = s;")
    sub(rnd, "self.0.finish()", "0")
    sub(rnd, "RandomState { k0, k1 }\n        })", "RandomState { k0: 0, k1: k1 & 0 & k0 }\n        })")
    raw = os.path.join(lib, "hashbrown/src/raw.rs")
    sub(raw, "let bit = group.match_empty_or_deleted().lowest_set_bit();\n",
        """let bit = {
            let buckets = self.bucket_mask + 1;
            let mut n = 0usize;
            for b in group.match_empty_or_deleted() {
                if b < buckets {
                    n += 1;
                }
            }
            if n == 0 {
                group.match_empty_or_deleted().lowest_set_bit()
            } else {
                unsafe extern "C-unwind" {
                    fn __v_map_slot(items: usize, empties: usize) -> usize;
                }
                let pick = unsafe { __v_map_slot(self.items, n) };
                let mut bit = None;
                let mut i = 0usize;
                for b in group.match_empty_or_deleted() {
                    if b < buckets {
                        if i == pick {
                            bit = Some(b);
                        }
                        i += 1;
                    }
                }
                bit
            }
        };
""")
    os.rename(tmp, dst)

main(sys.argv[1], "--native" in sys.argv)
