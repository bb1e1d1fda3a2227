// Two tiny trees: keys that occur twice, a leaf worth nothing, a claim of everything.
module trees {
  type Leaf = { k: str, n: int }
  pure val TREES: List[List[Leaf]] = [
    [{ k: "alice", n: 1 }, { k: "alice", n: 2 }, { k: "bobby", n: 2 }],
    [{ k: "hash0", n: 1 }, { k: "hash0", n: 2 }, { k: "hash1", n: 2 }, { k: "alice", n: 0 }],
  ]
}
