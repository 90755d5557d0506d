import hashlib, hmac, random, subprocess, glob, os, struct, sys, tempfile
r = random.Random(int(os.environ.get("VERIF_SEED", "1")))
so = max(glob.glob(".build/std/release/deps/libharness*.so"), key=os.path.getmtime)
def run(entry, data, *args):
    with tempfile.NamedTemporaryFile() as f:
        f.write(data); f.flush()
        p = subprocess.run([".build/runner", so, entry, f.name, "r", *map(str, args)], capture_output=True, text=True)
    assert p.returncode == 0, (entry, args, p.returncode, p.stdout)
    return [l[4:] for l in p.stdout.splitlines() if l.startswith("out ")][0]
M = (1 << 64) - 1
def rotl(x, b): return (x << b | x >> 64 - b) & M
def sip(k, m):
    k0, k1 = struct.unpack("<QQ", k)
    v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573]
    def rnd():
        v[0] = (v[0] + v[1]) & M; v[1] = rotl(v[1], 13) ^ v[0]; v[0] = rotl(v[0], 32)
        v[2] = (v[2] + v[3]) & M; v[3] = rotl(v[3], 16) ^ v[2]
        v[0] = (v[0] + v[3]) & M; v[3] = rotl(v[3], 21) ^ v[0]
        v[2] = (v[2] + v[1]) & M; v[1] = rotl(v[1], 17) ^ v[2]; v[2] = rotl(v[2], 32)
    b = m + b"\0" * (7 - len(m) % 8) + bytes([len(m) & 255])
    for i in range(0, len(b), 8):
        w = struct.unpack_from("<Q", b, i)[0]
        v[3] ^= w; rnd(); rnd(); v[0] ^= w
    v[2] ^= 0xff
    for _ in range(4): rnd()
    return struct.pack("<Q", v[0] ^ v[1] ^ v[2] ^ v[3])
# the vector of the SipHash paper
assert sip(bytes(range(16)), bytes(range(15))).hex() == "e545be4961ca29a1"
n = 0
for a in ["sha1", "sha256", "sha384", "sha512", "sha512_256", "ripemd160"]:
    for l in list(range(0, 260)) + [r.randrange(260, 5000) for _ in range(40)]:
        d = r.randbytes(l)
        assert run("h_oneshot_" + a, d, l) == hashlib.new(a, d).hexdigest(), (a, l); n += 1
    for kl in list(range(0, 140, 3)) + [63, 64, 65, 127, 128, 129, 300]:
        l = r.randrange(0, 200); x = r.randrange(0, l + 1)
        k, d = r.randbytes(kl), r.randbytes(l)
        assert run("h_mac_" + a, k + d, kl, x, l - x) == hmac.new(k, d, a).hexdigest(), (a, kl, l); n += 1
for l in range(0, 260):
    k, d = r.randbytes(16), r.randbytes(l)
    assert run("h_sip", k + d, l) == sip(k, d).hex(), l; n += 1
print("validate_spec: %d digests agree" % n)
