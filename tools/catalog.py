#!/usr/bin/env python3
"""The list of properties: writes properties.jsonl and MANIFEST.json."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "contracts/core/src/"
A = "contracts/airdrop/src/"
P = "contracts/periphery/src/"
K = "packages/"

PROPS = []

def prop(id, title, statement, over, quant, tests, files, mech, observe, models, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests,
                      files=files, mech=mech, observe=observe, models=models, state=state))

SEED_HIST = ["histories", "inputs", "configurations"]

prop("C01", "Index tokens stay fully collateralised",
     "After every transaction the vault holds, for each basket asset, at least (units in force at that moment) x (index supply) plus the accrued, not yet paid out streaming fees in that asset, and in the reserve asset also the proceeds earmarked by an ongoing rebalance. The only tolerated shortfall is rounding: less than one base unit per asset for each mint and each rebalance trade executed so far.",
     SEED_HIST, "every sequence of mints, burns, fee operations, governance changes and rebalance trades, for every basket, fee setting, price and time gap",
     "unit tests check single calls against hand-computed messages; none keeps the real balances of the vault over a history of operations",
     [C + "execute/token.rs", C + "execute/rebalance/trade/deflate.rs", C + "execute/rebalance/trade/inflate.rs", C + "state/fee.rs", C + "state/units.rs"],
     [("deposit taken for a mint", C + "execute/token.rs mint"), ("redemption paid for a burn", C + "execute/token.rs burn"),
      ("units moved by a trade", C + "execute/rebalance/trade/"), ("units turned into fees", C + "state/fee.rs StreamingFee::collect")],
     ["bank balances of the vault", "get_portfolio", "get_fee", "get_total_supply"], ["core"])

prop("C02", "Recorded supply equals index tokens in circulation",
     "The total supply the vault reports always equals the number of index tokens that exist on chain. A mint of amount A creates exactly A tokens and a burn destroys exactly the burned amount net of the burn fee; no other operation creates or destroys index tokens.",
     SEED_HIST, "every operation history, with and without mint and burn fees, and with transfers of index tokens in between",
     "the tests inspect the messages of single calls; they never execute them against a token ledger",
     [C + "execute/token.rs", C + "contract.rs", C + "state/mod.rs"],
     [("supply bookkeeping", C + "execute/token.rs"), ("token factory messages", C + "execute/token.rs")],
     ["get_total_supply", "bank supply of the index denom"], ["core"])

prop("C03", "Minting charges and delivers exactly the promised amounts",
     "A mint of A index tokens takes from the sender, for every basket asset, exactly max(1, floor(units x A)) base units after streaming fees were accrued, refunds every coin above that to the refund address (default: the sender), delivers A minus the mint fee to the receiver (default: the sender) and the mint fee (max(1, floor(rate x A)) when one is set) to the fee collector. It succeeds if and only if minting is open, the attached funds cover exactly the basket's denoms in at least those amounts and something is left for the receiver; otherwise nothing changes.",
     ["inputs", "histories", "configurations"], "every amount, funds set, receiver, refund address, basket and fee setting reachable by any history",
     "the two mint tests use one amount and one basket each, without refunds to third parties, rounding or the minimum deposit",
     [C + "execute/token.rs", C + "state/units.rs", C + "state/fee.rs"],
     [("deposit and refund calculation", C + "state/units.rs calc_refund_amount"), ("mint", C + "execute/token.rs mint")],
     ["bank balances before and after", "outcome of the transaction"], ["core"])

prop("C04", "Burning pays exactly the pro-rata basket",
     "Burning index tokens sends floor(rate x amount) of them as burn fee to the collector, destroys the rest N, and pays floor(units x N) of every basket asset, after accruing streaming fees, to the redemption address (default: the sender), never more. Only index tokens may be attached; otherwise, and when nothing would be paid, the transaction changes nothing.",
     ["inputs", "histories", "configurations"], "every amount, redemption address, basket and fee setting reachable by any history",
     "the two burn tests use one amount and one basket each",
     [C + "execute/token.rs", C + "state/units.rs"],
     [("burn", C + "execute/token.rs burn"), ("redemption calculation", C + "state/units.rs calc_require_amount")],
     ["bank balances before and after", "outcome of the transaction"], ["core"])

prop("C05", "No minting or burning while paused or rebalancing",
     "While the vault is paused or a rebalance is in progress every mint and every burn is refused. A pause ends exactly when its expiry time is reached or governance releases it (a pause without expiry never ends by itself), after which minting and burning work again; a pause needs a future expiry and cannot be set over a pause in force, and only a pause in force can be released.",
     ["schedules", "histories", "inputs"], "every interleaving of pausing, releasing, expiry, rebalancing and user operations, at every second around the expiry",
     "tests try two fixed times and never combine expiry with user operations",
     [C + "state/pause.rs", C + "execute/gov/pause.rs", C + "execute/token.rs"],
     [("pause bookkeeping", C + "state/pause.rs refresh"), ("guards", C + "execute/token.rs")],
     ["outcome of mint and burn", "get_config"], ["core"])

prop("C06", "Streaming fees accrue exactly once for every second",
     "Whenever a mint, burn, payout, fee change or rebalance start happens t seconds after the last accrual, each unit u is reduced by u x ((1+rate)^t - 1) and floor(that x supply) of the asset is added to the accrued fees (18-digit decimals, rounding down), before anything else is computed; every other operation leaves units and accrued fees of the streaming fee alone. No second is charged twice or skipped, and nothing accrues while the fee is frozen.",
     ["histories", "inputs", "configurations"], "every schedule of operations and time gaps, rate and basket",
     "the tests check one gap with a small rate; they cannot see a missed or doubled accrual across operations",
     [C + "state/fee.rs", C + "execute/fee.rs", C + "contract.rs"],
     [("accrual", C + "state/fee.rs StreamingFee::collect"), ("accrual before operations", C + "contract.rs execute, execute/fee.rs collect_streaming_fee")],
     ["get_portfolio", "get_fee at the time of the last accrual"], ["core"])

prop("C07", "Accrued fees leave the vault only to the collector, once",
     "Accrued streaming fees are paid out in full and exactly once: to the fee collector when it asks for them, and to the outgoing collector when governance replaces the fee settings. Nothing else reduces what has accrued, and nobody but the collector can trigger or receive a payout.",
     ["histories", "inputs"], "every history of accruals, payouts, fee changes and rebalances, and every caller",
     "one test pays out a preset amount; none follows fees through a change of settings or a rebalance",
     [C + "execute/fee.rs", C + "execute/gov/update.rs", C + "state/fee.rs"],
     [("payout", C + "execute/fee.rs realize_streaming_fee"), ("fee change", C + "execute/gov/update.rs update_fee")],
     ["bank balances of collector and vault", "get_fee"], ["core"])

prop("C08", "Fee rates stay within their bounds",
     "At every moment the mint fee and burn fee are absent or strictly between 0 and 100%, and the streaming fee rate is absent or above zero and at most 0.000000021979553 per second. Instantiating or updating with any other rate is refused; a valid setting is applied as given.",
     ["inputs", "histories", "configurations"], "every rate combination at instantiation and at every fee update",
     "the test table covers a few rates on the check function, not the entry points that must call it",
     [C + "state/fee.rs", C + "contract.rs", C + "execute/gov/update.rs"],
     [("bounds", C + "state/fee.rs check_rates"), ("callers", C + "contract.rs instantiate, " + C + "execute/gov/update.rs update_fee")],
     ["outcome of instantiate and update_fee_strategy", "get_fee"], ["core"])

prop("C09", "Privileged operations obey only the right account",
     "Pausing, releasing, naming or revoking a successor, changing fees, the reserve denom, trade limits or the rebalance manager, and starting a rebalance are possible only for the current governor; rebalance trades and finalisation only for the rebalance manager when one is set (for anybody otherwise); payouts only for the fee collector. No other account can change any of these, and the right account is never turned away for being who it is.",
     ["inputs", "histories"], "every caller and operation in every reachable state, including after governance, manager or collector changed",
     "tests try one wrong sender per message in one fixed state",
     [C + "execute/gov/mod.rs", C + "execute/gov/update.rs", C + "execute/gov/pause.rs", C + "execute/rebalance", C + "execute/fee.rs", C + "state/config.rs"],
     [("governor check", C + "state/config.rs check_gov"), ("manager check", C + "execute/rebalance/trade/mod.rs, finalize.rs"), ("collector check", C + "execute/fee.rs")],
     ["outcome of every operation by caller", "configuration queries"], ["core"])

prop("C10", "Governance moves only by a two-step handover",
     "The governor changes only when the account named by the current governor accepts. At most one successor is pending, a second nomination is refused until the first is accepted or revoked, a revoked or never nominated account cannot accept, and accepting clears the nomination and takes all rights from the old governor.",
     ["histories", "inputs"], "every sequence of nominations, acceptances and revocations by every account",
     "one linear test scenario",
     [C + "execute/gov/update.rs", C + "state/config.rs"],
     [("handover", C + "execute/gov/update.rs update_gov, accept_gov, revoke_gov")],
     ["get_config", "outcome of governed operations"], ["core"])

prop("C11", "A rebalance starts only from a valid plan",
     "A rebalance starts only when none is in progress, with non-empty deflation and inflation lists, no denom listed twice or in both, every deflation target at most the current (accrued) unit of a basket asset, and positive inflation weights; every such plan of the governor is accepted and recorded as given. While it lasts, the fee settings and the reserve denom cannot be changed, and only then can the rebalance manager be changed.",
     ["inputs", "histories"], "every plan against every reachable basket, before, during and after rebalances",
     "validation is tested with a handful of plans on a fixed basket",
     [C + "state/rebalance.rs", C + "execute/rebalance/init.rs", C + "execute/gov/update.rs"],
     [("plan validation", C + "state/rebalance.rs validate"), ("start", C + "execute/rebalance/init.rs")],
     ["outcome of rebalance init", "get_rebalance", "get_config"], ["core"])

prop("C12", "Rebalance trades respect plan, limits, cooldown and slippage",
     "A trade is possible only during a rebalance and along the route configured for its pair, with an amount up to that pair's maximum, not earlier than its cooldown after its previous trade, and only within the caller's price bound; governance can set one such route per pair (sold denom, finally bought denom) at any time. A sale never reduces a unit below its deflation target and a purchase never spends more reserve than was earmarked for that asset; every trade within these limits is accepted.",
     ["inputs", "schedules", "histories"], "every trade amount around every limit, at every second around the cooldown, for every route, price and basket",
     "tests mock one route with fixed estimates and one limit at a time",
     [C + "execute/rebalance/trade", C + "state/rebalance.rs", C + "execute/gov/update.rs"],
     [("limits", C + "execute/rebalance/trade/mod.rs, deflate.rs, inflate.rs"), ("cooldown", C + "state/rebalance.rs assert_cooldown"), ("routes", C + "execute/gov/update.rs update_trade_info")],
     ["outcome of trades", "get_trade_info", "bank balances"], ["core"])

prop("C13", "Rebalance trades are accounted for exactly",
     "A sale lowers the sold asset's unit by exactly the sold amount per index token and earmarks the proceeds per index token for the inflation assets in proportion to their weights, the last one taking the remainder; a purchase moves exactly its cost out of that asset's earmark and adds what was bought per index token to its unit. Selling or buying the reserve asset itself only moves units between basket and earmarks; no other units, earmarks or balances change.",
     ["inputs", "histories", "configurations"], "every sequence of trades, weights, prices and supplies",
     "tests check one sale and one purchase with round numbers",
     [C + "execute/rebalance/trade/deflate.rs", C + "execute/rebalance/trade/inflate.rs", C + "execute/rebalance/trade/mod.rs", C + "state/units.rs"],
     [("sale", C + "execute/rebalance/trade/deflate.rs"), ("purchase", C + "execute/rebalance/trade/inflate.rs"), ("unit arithmetic", C + "state/units.rs add_key, sub_key")],
     ["get_portfolio", "bank balances", "largest purchase accepted per asset"], ["core"])

prop("C14", "A rebalance ends only when its plan is fulfilled",
     "A rebalance can be finalised exactly when every deflation target has been reached and every earmark has been spent, up to what trading cannot settle (a rest of the unit worth less than one base unit of the whole supply, or its last digit). Finalising then removes the plan and all assets with zero units from the basket, leaves the other units and all balances as they are, and reopens minting and burning.",
     ["histories", "inputs"], "every partially executed rebalance",
     "tests use preset states with one denom on each side",
     [C + "execute/rebalance/finalize.rs", C + "state/units.rs"],
     [("conditions", C + "execute/rebalance/finalize.rs"), ("pruning", C + "state/units.rs prune_zero")],
     ["outcome of finalize", "get_rebalance", "get_portfolio", "later mints and burns"], ["core"])

prop("C15", "No streaming fee is charged for the time of a rebalance",
     "Fees due up to the start of a rebalance are accrued when it starts; from then until it is finalised neither units nor accrued fees change through the streaming fee, and after finalisation charging resumes from that moment, not from the start. Fees accrued before the rebalance stay payable to the collector.",
     ["histories", "schedules"], "every rebalance of any length, with any operations during it",
     "two tests check the flag, not the amounts charged afterwards",
     [C + "execute/rebalance/init.rs", C + "execute/rebalance/finalize.rs", C + "state/fee.rs"],
     [("freeze", C + "execute/rebalance/init.rs"), ("resume", C + "execute/rebalance/finalize.rs")],
     ["get_portfolio", "get_fee", "accruals after finalisation"], ["core"])

prop("C16", "Queries and simulations tell what execution would do",
     "The fee, portfolio and configuration queries report the exact state as of the requested time (now by default), including fees that would have accrued and pauses that would have expired by then, and simulated mints and burns return exactly the amounts that executing them at that time delivers, charges and refunds, and fail when the funds given would not do. Queries for a time before the last accrual are refused.",
     ["inputs", "histories"], "every query argument and time in every reachable state, compared with execution in that state",
     "queries have no tests of their own",
     [C + "query.rs", C + "state/fee.rs", C + "state/units.rs", C + "state/pause.rs"],
     [("queries", C + "query.rs")],
     ["query answers against transactions"], ["core"])

prop("C17", "Listing trade limits page by page misses and repeats nothing",
     "Walking through the trade limits of a denom with any page size, in ascending or descending order, continuing after the last entry of each page, yields every configured pair exactly once in that order, each page no longer than asked for (ten when nothing is asked for; more than thirty is refused). Continuing after a denom that is not listed gives the entries beyond it.",
     ["inputs", "histories"], "every set of configured pairs, page size and order",
     "listing has no tests",
     [C + "query.rs"], [("paging", C + "query.rs list_trade_info")],
     ["list_trade_info", "get_trade_info"], ["core", "pages"])

prop("C18", "A rebalance in progress can always be brought to its end",
     "Whatever has been traded so far, a rebalance can be completed: once governance opens routes that trade the deflated and inflated assets one for one against the reserve (and the vault's rounding shortfall, if any, is topped up), selling what is left above each deflation target, spending what is left of each earmark, as long as at least one base unit is left to trade, and then finalising are all accepted. After that minting works again. No rounding rest, supply (zero included), pause or earlier trade can lock the holders' assets in a rebalance.",
     ["histories", "inputs", "configurations"], "every state of every rebalance: any supply, plan, price history and partial execution",
     "the tests finalise preset states with round numbers; none trades its way to the end",
     [C + "execute/rebalance/finalize.rs", C + "execute/rebalance/trade", C + "execute/gov/update.rs"],
     [("conditions", C + "execute/rebalance/finalize.rs"), ("trades", C + "execute/rebalance/trade/deflate.rs, inflate.rs"), ("routes", C + "execute/gov/update.rs update_trade_info")],
     ["outcome of the finishing trades on a fork of the chain", "outcome of finalize", "a mint afterwards"], ["core"])

prop("C19", "Holders can always redeem",
     "While the vault is neither paused nor in a rebalance, whoever holds index tokens can burn any part of them that is worth at least one base unit of some asset, whatever was done before and however much time has passed since the last operation (once the vault's rounding shortfall, less than one base unit per mint or trade and asset, is topped up). The burn is accepted and pays exactly the net amount's share at the units of that moment.",
     ["histories", "schedules", "inputs"], "every reachable state, holder, amount and idle time",
     "the tests burn from preset states right after the last operation",
     [C + "execute/token.rs", C + "execute/fee.rs", C + "state/fee.rs", C + "state/units.rs"],
     [("burn", C + "execute/token.rs burn"), ("accrual before every operation", C + "execute/fee.rs collect_streaming_fee, " + C + "state/fee.rs collect")],
     ["outcome and payouts of burns on a fork of the chain after a waiting time"], ["core"])

EXTRA = os.path.join(ROOT, "tools", "catalog_more.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))

NOT_APPLICABLE = []

LEVEL = {}

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": list(p["observe"]), "hook_needed": None},
            }) + "\n")
    checks = []
    for p in PROPS:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 tools/check.py {p['id']} quick",
            "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
            "technique": "Quint specification; behaviours generated from it are replayed step by step into the real contracts",
            "level": LEVEL.get(p["id"], "exploration"),
            "level_note": "model-based conformance: every generated behaviour of the specification is executed on the real code and outcome, balances and all observable fields are compared after every step; bounded by the number and length of the behaviours",
        })
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    main()
