// The trees that airdrop roots commit to.  The small instance overlays this file.
module trees {
  type Leaf = { k: str, n: int }
  pure val TREES: List[List[Leaf]] = [
    [{ k: "alice", n: 100 }, { k: "bobby", n: 200 }, { k: "carol", n: 300 }, { k: "dave0", n: 50 }],
    [{ k: "alice", n: 1000 }],
    [{ k: "hash0", n: 100 }, { k: "hash1", n: 200 }, { k: "hash2", n: 100 }, { k: "hash3", n: 10^20 }, { k: "hash4", n: 1 }],
    [{ k: "alice", n: 100 }, { k: "alice", n: 150 }, { k: "bobby", n: 0 }, { k: "carol", n: 2^127 }, { k: "dave0", n: 7 },
     { k: "bobby", n: 33 }, { k: "hash0", n: 100 }],
    [{ k: "hash0", n: 70 }, { k: "hash0", n: 30 }, { k: "alice", n: 100 }],
    [{ k: "bobby", n: 5 }, { k: "carol", n: 6 }, { k: "dave0", n: 7 }, { k: "alice", n: 8 }, { k: "hash1", n: 200 }, { k: "hash2", n: 9 }],
    // large and deep: leaf i is (name i mod 8, i + 1)
    range(0, 601).foldl([], (l, i) => l.append({ k: ["alice", "bobby", "carol", "dave0", "hash0", "hash1", "hash2", "hash5"][i % 8], n: i + 1 })),
    // the first two and the next two leaves have hashes that agree in the first four bytes
    [{ k: "alice", n: 1341 }, { k: "dave0", n: 2820 }, { k: "carol", n: 6417 }, { k: "alice", n: 12337 }, { k: "bobby", n: 40 }, { k: "dave0", n: 151 }],
    // a single leaf: its hash is the root (and nearly that of dave0, 2820)
    [{ k: "alice", n: 1341 }],
    // keys that only look alike
    [{ k: "hash0", n: 60 }, { k: "Hash0", n: 60 }, { k: "HASH0", n: 60 }, { k: " hash0", n: 60 }, { k: "hash0 ", n: 60 },
     { k: "hash", n: 6 }, { k: "hash00", n: 600 }, { k: "hash0/alice", n: 60 }, { k: "hash0:6", n: 0 }, { k: "hash0:6", n: 60 }, { k: "0xhash0", n: 60 }],
  ]
}
