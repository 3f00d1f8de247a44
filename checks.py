"""What each check builds and runs.  stages: config, number of generated cases in the quick tier (mult: factor for thorough)."""
KNOWN_FILE = "KNOWN_FINDINGS.txt"
CTRM = ["ctr_tab", "ctr_x86", "ctr_x86i", "ctr_arm", "ctr_armi"]
CFBM = ["cfb_tab", "cfb_x86", "cfb_x86i", "cfb_arm", "cfb_armi"]
CTR6 = ["ctr_r6", "ctr_r6x", "ctr_r6a"]
CFB6 = ["cfb_r6", "cfb_r6x", "cfb_r6a"]
AEGM = ["aegis_tab", "aegis_x86", "aegis_x86i", "aegis_arm", "aegis_armi"]
CHA = ["chacha20", "chacha12", "chacha8"]
STR = ["hc128", "rabbit", "sosemanuk"]
SER = ["serpent", "serpent_s"]
HASH = ["sha", "sha_h", "hmac", "md5"]
HE = ["he", "muhe"]
ALL = CTRM + CFBM + AEGM + CHA + STR + SER + HASH + ["des", "hex"]
WRAP = ["-lgmp", "-Wl,--wrap=__gmp_randinit_mt", "-Wl,--wrap=__gmp_randinit_default"]
def S(cfg, cases, only=None, **k):
    d = dict(cfg=cfg, cases=cases, **k)
    if only:
        d["only"] = only
    return d
def base(asan, o0, o2, arm=None, c2=None):
    v = [S("asan", asan), S("o0", o0), S("o2", o2)]
    if arm: v.append(S("arm", arm))
    if c2: v += [S("o2s", c2), S("c2s", c2)]
    return v
FZ = dict(s=10)
CHECKS = {
 "C01": dict(src=["C01.cpp"], mods=CTRM + CTR6, fuzz=FZ, rule="random key, nonce, message and build; non-trivial: the message is not empty",
    stages=base(40000, 40000, 40000, 8000) + [S("o0", 64, "long_message"), S("o2", 4, "huge_message", workers=4), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True)]),
 "C02": dict(src=["C02.cpp"], mods=CTRM + CTR6, fuzz=FZ, rule="a history of key loads, nonce loads and packets; non-trivial: at least two packets",
    stages=base(16000, 16000, 16000, 3000) + [S("o2", 64, "long_session"), S("o2", 8, "huge_session"), S("o2", 32, "many_calls", cpu=120)]),
 "C03": dict(src=["C03.cpp"], mods=CFBM + CFB6, fuzz=FZ, rule="random key, IV, message, direction and build; non-trivial: the message is not empty",
    stages=base(24000, 24000, 24000, 4000) + [S("o2", 48, "long_message"), S("o2", 4, "huge_message", workers=4), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True)]),
 "C04": dict(src=["C04.cpp"], mods=CFBM + CFB6, fuzz=FZ, rule="a sender/receiver session, possibly with loss and damage; non-trivial: at least two packets delivered",
    stages=base(10000, 12000, 12000, 2500) + [S("o2", 48, "long_session"), S("o2", 32, "many_calls", cpu=120)]),
 "C05": dict(src=["C05.cpp"], mods=CTRM + CFBM + AEGM, fuzz=FZ, rule="one call history on every build; non-trivial: at least one packet on at least two builds",
    stages=base(10000, 12000, 12000, 2500) + [S("o2", 64, "long_history"), S("arm", 16, "long_history")]),
 "C06": dict(src=["C06.cpp"], mods=AEGM, fuzz=FZ, rule="random key, IV, associated data, message; non-trivial: not both empty",
    stages=base(12000, 12000, 12000, 2000) + [S("o2", 48, "long_packet"), S("o2", 160, "power_packet"), S("o2", 3, "huge_packet", workers=3), S("o0", 1, "enormous_ad", workers=1, cpu=300, time=300), S("o2", 1, "enormous_packet", workers=1, cpu=900, time=300, heavy=True), S("o2", 16, "many_calls", cpu=120)]),
 "C07": dict(src=["C07.cpp"], mods=AEGM, fuzz=FZ, rule="an encrypted packet and generated damage; non-trivial: a packet that was never encrypted was presented",
    stages=base(10000, 10000, 10000, 2000) + [S("o2", 48, "long_packet"), S("o2", 1, "enormous_packet", workers=1, cpu=900, time=300, heavy=True), S("o2", 16, "many_calls", cpu=120)]),
 "C08": dict(src=["C08.cpp"], mods=CHA, fuzz=FZ, rule="random key, nonce, message and round count; non-trivial: the message is not empty",
    stages=base(24000, 24000, 24000, 4000) + [S("o2", 64, "long_message"), S("o2", 3, "huge_message", workers=3), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True)]),
 "C09": dict(src=["C09.cpp"], mods=CHA, fuzz=FZ, rule="a history of block calls, packets and initialisations, or helper inputs; non-trivial: at least one call compared",
    stages=base(16000, 16000, 16000, 4000) + [S("o2", 64, "long_history"), S("o2", 16, "many_calls", cpu=120)]),
 "C10": dict(src=["C10.cpp"], mods=["hc128"], fuzz=FZ, rule="random key, IV, message; non-trivial: the message is not empty",
    stages=base(10000, 10000, 12000, 1500) + [S("o2", 48, "long_message"), S("o2", 2, "huge_message", workers=2), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True)]),
 "C11": dict(src=["C11.cpp"], mods=["rabbit"], fuzz=FZ, rule="random key, IV (or none), message; non-trivial: the message is not empty or several IVs were loaded",
    stages=base(24000, 24000, 24000, 4000, 12000) + [S("ub", 4000), S("o2", 64, "long_message"), S("o2", 3, "huge_message", workers=3), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True)]),
 "C12": dict(src=["C12.cpp"], mods=["sosemanuk"], fuzz=FZ, rule="random key of 1..32 bytes, IV, message; non-trivial: the message is not empty",
    stages=base(16000, 16000, 16000, 3000) + [S("o2", 64, "long_message"), S("o2", 3, "huge_message", workers=3), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True)]),
 "C13": dict(src=["C13.cpp"], mods=STR, fuzz=FZ, rule="a session history; non-trivial: at least two packets",
    stages=base(8000, 10000, 12000, 1500) + [S("o2", 48, "long_session"), S("o2", 8, "far_session"), S("o2", 32, "many_calls", cpu=120)]),
 "C14": dict(src=["C14.cpp"], mods=SER, fuzz=FZ, rule="random key of 1..32 bytes and block; non-trivial: a block was compared",
    stages=base(24000, 24000, 24000, 4000) + [S("o2", 16, "many_calls", cpu=120)]),
 "C15": dict(src=["C15.cpp"], mods=["sha", "sha_h"], fuzz=FZ, rule="random message; non-trivial: the message is not empty",
    stages=base(16000, 16000, 20000, 3000) + [S("o2", 48, "long_message"), S("o2", 4, "huge_message", workers=4), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True), S("o2", 16, "many_calls", cpu=120)]),
 "C16": dict(src=["C16.cpp"], mods=["hmac"], fuzz=FZ, rule="random key, message, tag length, history; non-trivial: a tag was compared",
    stages=base(12000, 12000, 16000, 2000) + [S("o2", 48, "long_message"), S("o2", 2, "huge_message", workers=2), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True), S("o2", 16, "many_calls", cpu=120)]),
 "C17": dict(src=["C17.cpp"], mods=["hmac"], fuzz=FZ, rule="authentic and damaged (tag, message, key) triples; non-trivial: a wrong triple was presented, or several triples",
    stages=base(10000, 10000, 14000, 2000) + [S("o2", 48, "long_message"), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True), S("o2", 16, "many_calls", cpu=120)]),
 "C18": dict(src=["C18.cpp"], mods=["md5"], fuzz=FZ, rule="random message and split; non-trivial: more than one piece or more than one message",
    stages=base(12000, 16000, 20000, 3000) + [S("o2", 64, "long_message"), S("o2", 4, "huge_message", workers=4), S("o2", 6, "huge_call", workers=3, cpu=60), S("o2", 16, "many_calls", cpu=120)]),
 "C19": dict(src=["C19.cpp"], mods=["des"], fuzz=FZ, rule="random key, direction and blocks; non-trivial: at least one block",
    stages=base(12000, 12000, 16000, 2500) + [S("o2", 32, "long_message"), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True), S("o2", 16, "many_calls", cpu=120)]),
 "C20": dict(src=["C20.cpp"], mods=["des"], fuzz=FZ, rule="random key, nonce, message; non-trivial: more than one block",
    stages=base(12000, 12000, 16000, 2500) + [S("o2", 64, "long_message"), S("o2", 2, "huge_message", workers=2), S("o2", 1, "enormous_message", workers=1, cpu=900, time=300, heavy=True), S("o2", 16, "many_calls", cpu=120)]),
 "C21": dict(src=["C21.cpp"], mods=["hex"], fuzz=FZ, rule="random bytes or digits; non-trivial: not empty",
    stages=base(8000, 10000, 12000, 2000) + [S("o2", 32, "long_message"), S("o0", 1, "huge_message", workers=1, cpu=300, time=300), S("o2", 16, "many_calls", cpu=120)]),
 "C22": dict(src=["C22.cpp"], mods=["jl"], libs=WRAP, rule="random key, messages and program; non-trivial: at least one decryption was compared",
    stages=[S("o0", 6000), S("asan", 2500), S("o2", 6000), S("o2", 64, "large"), S("o2", 24, "long_program"), S("o2", 64, "large_space")]),
 "C23": dict(src=["C23.cpp"], mods=["lhe"], libs=WRAP, rule="random sizes and seed; non-trivial: a key was generated and examined",
    stages=[S("o0", 500), S("asan", 300), S("o2", 900), S("o2", 64, "large"), S("o2", 24, "user_size", workers=8, cpu=120, time=240)]),
 "C24": dict(src=["C24.cpp"], mods=["lhe"], libs=WRAP, rule="a random program over labelled ciphertexts; non-trivial: at least three values",
    stages=[S("o0", 2500), S("asan", 1200), S("o2", 3000), S("o2", 24, "long_program"), S("o2", 64, "large_space"), S("o2", 16, "many_calls", cpu=120)]),
 "C25": dict(src=["C25.cpp"], mods=["lhe"], libs=WRAP, rule="labels, messages, contexts with one masking key; non-trivial: masks were compared",
    stages=[S("o0", 2500), S("asan", 1200), S("o2", 3000), S("o2", 64, "large_space")]),
 "C31": dict(src=["C31.cpp"], mods=["mulhe"], libs=WRAP, rule="users with their own masking keys, and a random program over their labelled ciphertexts; non-trivial: at least three values",
    stages=[S("o0", 2500), S("asan", 1200), S("o2", 3000), S("o2", 24, "long_program"), S("o2", 64, "large_space")]),
 "C26": dict(src=["C26.cpp"], mods=ALL, fuzz=dict(s=20), rule="operations of a random algorithm on exact-size buffers; non-trivial: every case",
    stages=[S("asan", 40000), S("o2", 40000), S("o0", 15000), S("arm", 3000), S("asan", 26, "larger_than_stack"), S("o0", 26, "larger_than_stack"), *[S(k, 6000, "pages") for k in ("o2", "o0")], S("arm", 600, "pages"), S("o2", 3, "enormous", workers=3)]),
 "C27": dict(src=["C27.cpp"], mods=CFBM + ["hc128", "hmac", "hex"], fuzz=FZ, rule="a session with an attacker; non-trivial: at least two packets delivered and one attack rejected",
    stages=base(6000, 8000, 10000, 1200) + [S("o2", 24, "long_session"), S("o2", 16, "many_calls", cpu=120)]),
 "C28": dict(src=["C28.cpp"], mods=ALL + HE, libs=WRAP, rule="interleaved, copied or concurrent contexts; non-trivial: every case",
    stages=[S("asan", 12000), S("o0", 12000), S("o2", 14000), S("tsan", 1200, "threads_race"), S("o2", 600, "threads_long", workers=4), S("tsan", 240, "public_key_race"), S("o2", 240, "public_key_threads", workers=4), S("tsan", 400, "first_use"), S("o2", 2000, "first_use"), S("o2", 400, "crowd"), S("arm", 800, "interleaved")]),
 "C29": dict(src=["C29.cpp"], mods=ALL, fuzz=FZ, rule="an operation history run over several leftovers and placements; non-trivial: every case",
    stages=[S("o0", 16000), S("o2s", 12000), S("o3s", 10000), S("c0", 10000), S("c2s", 12000), S("asan", 8000), S("arm", 1500), S("arm0", 1500), S("o2s", 48, "large"),
        *[S(k, 3000, "odd_placement") for k in ("asan", "o0", "o2")], S("arm", 400, "odd_placement")]),
 "C33": dict(src=["C33.cpp"], mods=ALL + HE, libs=WRAP, rule="a random history of calls that is run 32 times and more; non-trivial: every case",
    stages=[S("o0", 3000), S("o2", 5000), S("arm", 300), S("o2", 48, "long_run")]),
 "C34": dict(src=["C34.cpp"], mods=ALL + HE, libs=WRAP, fuzz=FZ, rule="a random history of calls; non-trivial: every case",
    stages=[S("asan", 6000), S("o0", 8000), S("o2", 10000), S("arm", 1000), S("o2", 48, "long_session")]),
 "C35": dict(src=["C35.cpp"], mods=CTRM + CFBM + CHA + STR + ["des"], fuzz=FZ, rule="a session of calls, some of them in place; non-trivial: at least one non-empty call in place",
    stages=[S("asan", 16000), S("o0", 16000), S("o2", 16000), S("arm", 3000), S("o2", 48, "long_session")]),
 "C36": dict(src=["C36.cpp"], mods=HE, libs=WRAP, rule="a program whose results may replace their operands; non-trivial: at least one result did",
    stages=[S("o0", 12000), S("asan", 5000), S("o2", 20000), S("o2", 64, "long_program")]),
}
