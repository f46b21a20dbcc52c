"""Seams every scenario uses: hash order of hooks, logging"""


def install_seams(sim):
    from malcolm.core import hook as hook_mod

    # Hooks are kept in a set; with the default hash its order depends on
    # addresses.  The order is a scheduling decision, so the simulator makes it.
    counter = [0]
    hashes = {}

    def hook_hash(self):
        h = self.__dict__.get("_dst_hash")
        if h is None:
            counter[0] += 1
            h = counter[0] if "hookorder" in sim.zero_keys else sim.rng(
                "hookorder"
            ).getrandbits(16)
            self.__dict__["_dst_hash"] = h
        return h

    del hashes
    hook_mod.Hook.__hash__ = hook_hash
