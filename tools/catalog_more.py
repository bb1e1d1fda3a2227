# executed by catalog.py: the properties of the airdrop, the periphery, the pool simulation and the packages
AH = ["histories", "inputs"]

prop("A01", "Airdrops are solvent and isolated from each other",
     "At every moment the airdrop contract holds, per denom, at least the sum of (total amount - total claimed) over all open airdrops. What an airdrop pays out never exceeds what was deposited into it, total claimed equals the sum of its recorded claims, and no operation on one airdrop changes another one or spends its funds.",
     AH, "every history of registrations, fundings, claims and closings of several airdrops sharing denoms",
     "unit tests look at one airdrop at a time with mocked storage and never move money",
     [A + "execute/claim.rs", A + "execute/fund.rs", A + "execute/close.rs", A + "execute/register.rs"],
     [("claim accounting", A + "execute/claim.rs"), ("funding", A + "execute/fund.rs"), ("refund", A + "execute/close.rs")],
     ["bank balances", "get_airdrop", "get_claim"], ["airdrop"])

prop("A02", "A claim key is paid at most once per airdrop",
     "In each airdrop every claim key (the account for open airdrops, the claim hash for bearer airdrops) is paid at most once, no matter who sends the claim, which leaf or amount it names or how the airdrop is referred to; a key already used in one airdrop can still be used in another.",
     AH, "every history of claims over several airdrops that share keys, with keys that occur in several leaves",
     "tests claim twice in a row with identical arguments",
     [A + "execute/claim.rs", A + "state.rs"],
     [("claim log", A + "state.rs assert_not_claimed")],
     ["outcome of claims", "get_claim", "bank balances"], ["airdrop"])

prop("A03", "Exactly the valid claims are paid, in full, to the entitled account",
     "A claim succeeds if and only if the airdrop exists, is of the named type and open, the key was not used, the Merkle proof shows (key, amount) under the airdrop's root, for bearer airdrops the airdrop's signer signed exactly (hash, claimer, amount), and the remaining funds cover it. It then pays exactly the amount, in the airdrop's denom, to the claimer and to nobody else. Anything else pays nothing and changes nothing.",
     AH, "every claim: leaf, amount, account, sender, proof (also tampered, truncated, of another leaf, of another tree), signature (other signer, hash, recipient, amount, bit flips) against every reachable set of airdrops",
     "tests have one tree and check a handful of wrong inputs",
     [A + "execute/claim.rs", A + "verify.rs"],
     [("proof check", A + "verify.rs verify_merkle_proof"), ("signature check", A + "execute/claim.rs claim_bearer")],
     ["outcome of claims", "bank balances"], ["airdrop"])

prop("A04", "Only the creator funds and closes an airdrop; closing refunds the rest once and ends it",
     "Only the account that registered an airdrop can fund it (with exactly its denom) or close it. Closing sends exactly the unclaimed remainder back to the creator, also when it is zero, and happens at most once; afterwards the airdrop accepts neither funding nor claims and its records stay as they were.",
     AH, "every history and every sender, airdrops referred to by id and by label, fully, partly and never claimed",
     "tests close one airdrop that was not claimed from and check the message, not the money",
     [A + "execute/close.rs", A + "execute/fund.rs"],
     [("close", A + "execute/close.rs"), ("fund", A + "execute/fund.rs")],
     ["outcome", "bank balances", "get_airdrop"], ["airdrop"])

prop("A05", "Registration records what was paid, under a fresh id and an unused label",
     "A registration succeeds if and only if the root is a 32-byte hex string, exactly the airdrop's denom is attached, the label (scoped by its creator) is unused and, for bearer airdrops, the given key signed its own address. It gets the next id, records the attached amount as the total and nothing as claimed; labels never change the airdrop they name, and two creators can use the same label.",
     AH, "every history of registrations by several creators with overlapping labels, signatures and funds",
     "tests register single airdrops",
     [A + "execute/register.rs", A + "state.rs"],
     [("registration", A + "execute/register.rs"), ("labels", A + "state.rs save_label")],
     ["latest_airdrop_id", "get_airdrop", "get_label", "bank balances"], ["airdrop"])

prop("A06", "Airdrop queries tell the recorded truth",
     "Queries by id and by label return exactly the airdrop, claim and label records that the executed transactions produced, and a claim verification answers valid exactly when proof and signature would be accepted by a claim for that account on an airdrop that is open.",
     AH, "every reachable set of airdrops, every id, label, claim key and claim payload",
     "verification is never compared with what claiming does",
     [A + "query/claim.rs", A + "query/airdrop.rs", A + "query/label.rs"],
     [("verification", A + "query/claim.rs verify_claim"), ("records", A + "query/")],
     ["get_airdrop", "get_claim", "get_label", "verify_claim"], ["airdrop"])

prop("A07", "Airdrop listings are complete and without repeats",
     "Walking through airdrops (by id, by type, by creator, by label), labels, or the claims of an airdrop, with any page size and in both orders, continuing after the last entry of each page, yields every matching record exactly once in order, no page longer than asked for (ten when nothing is asked for; more than thirty is refused). Continuing after a key that is not listed gives the entries beyond it.",
     AH, "every reachable set of airdrops, each listing, page size and order",
     "listings are tested with one record",
     [A + "query/airdrop.rs", A + "query/label.rs", A + "query/claim.rs", A + "state.rs"],
     [("paging", A + "query/")],
     ["list_airdrops", "list_labels", "list_claims"], ["airdrop", "pages"])

SQ = ["inputs", "configurations", "histories"]
L = K + "pool/src/"

prop("S01", "A simulated weighted-pool swap gives what the pool itself would give",
     "For every weighted pool, a simulated exact-input swap returns reserve_out * (1 - (reserve_in / (reserve_in + input after swap fee)) ^ (weight_in / weight_out)) rounded down, and a simulated exact-output swap returns reserve_in * ((reserve_out / (reserve_out - output)) ^ (weight_out / weight_in) - 1) / (1 - swap fee) rounded up, up to one unit of rounding and the 10^-8 precision of fractional powers. A swap naming an asset the pool does not hold, or asking for the whole reserve or more, is an error. Concentrated and stable pools give exactly what the chain quotes.",
     SQ, "every pool (reserves, weights, fee, number of assets), every pair, direction and amount up to a large share of the reserves",
     "the pool tests need a running chain binary and are not part of the test suite that runs; they would cover a few recorded pools",
     [L + "weighted.rs", L + "concentrated.rs", L + "stable.rs", L + "query.rs"],
     [("swap formulas", L + "weighted.rs calc_out_amount_given_in / calc_in_amount_given_out"), ("decoding of pools", L + "query.rs")],
     ["result of OsmosisPool::swap_exact_amount_in / swap_exact_amount_out"], ["pool"])

prop("S02", "A simulated index trade prices each leg on what earlier legs left behind",
     "Estimating the cost (proceeds) of an index amount prices, for every basket asset, floor(unit x amount) of it along the given route, hop after hop, each swap seeing the reserves as left by all swaps simulated before it: input reserve up by the whole input, output reserve down by the output, nothing else changed. Assets already in the wanted denom count one to one without a swap, and the estimate is the sum of the legs. Estimating changes nothing: the same question gets the same answer.",
     SQ, "every set of pools, basket, order of assets, multi-hop routes through shared pools, pay denom and index amount",
     "no test that runs simulates a trade over several assets or shared pools",
     [L + "sim/index_in.rs", L + "sim/index_out.rs", L + "sim/mod.rs", L + "weighted.rs"],
     [("walks over the basket", L + "sim/index_out.rs estimate_token_given_index_out, sim/index_in.rs estimate_token_given_index_in"), ("reserve updates", L + "weighted.rs apply_new_pool_assets")],
     ["Simulator::estimate_input_for_index, estimate_output_for_index and their legs", "reserves of the simulated pool"], ["pool"])

prop("S03", "The index amount found for a budget really fits it",
     "When the search for the index amount that a given input buys (or a given output needs) answers, the simulated total for exactly that index amount is at most the given amount and less than 5000 base units below it. The total it reports is the estimate for the amount it reports. It does find one whenever repeatedly scaling the starting amount by wanted over simulated total gets there.",
     SQ, "every set of pools, basket, wanted amount and starting point",
     "the only test of the search needs a chain binary and prints the result",
     [L + "sim/index_in.rs", L + "sim/index_out.rs", L + "sim/mod.rs"],
     [("search", L + "sim/index_out.rs search_efficient_amount_for_input, sim/index_in.rs search_efficient_amount_for_output")],
     ["search results compared with estimates"], ["pool"])

prop("M01", "Powers are right to the promised precision",
     "For a base strictly between 0 and 2 the power function returns the true power: to within rounding of the 18-digit decimals for whole exponents (also 0 and 1), to within about 10^-8 of the whole-exponent part for fractional ones (for bases below one: 10^-8 divided by the base). Other bases are refused with an error, never answered with a number.",
     ["inputs"], "every base between 0.04 and 1.98, every rational exponent p/q with p < 16 and q < 8, and bases outside the domain",
     "the existing test checks a table of cases and leaves out exponents whose integer part is one",
     [K + "math/src/pow.rs"],
     [("power", K + "math/src/pow.rs pow, pow_int, pow_approx")],
     ["value of ibcx_math::pow"], ["pool"])

PQ = ["inputs", "histories", "configurations"]
PW = "every order of the basket, pay denom, route (direct, long, shared pools, left out), amount, limit, fee setting, market movement between the operations, and executed prices worse or better than quoted"

prop("P01", "The periphery keeps nothing and only finishes its own operations",
     "After every trade through the periphery its balances are what they were before, in every denom: everything the sender attached and everything bought, redeemed or left over went to the vault, the pools or back to the sender within the same transaction, and a failing trade moves nothing at all. Coins lying in the periphery are never used up by somebody's trade except that they may be swept to the sender of a trade in that denom. Only the periphery itself can call finish_operation; it pays the whole balance of the named denom to the named address.",
     PQ, PW + ", with coins lost in the periphery", "unit tests of the periphery look at messages, never at balances after them",
     [P + "execute.rs", P + "contract.rs"],
     [("sweep at the end of an operation", P + "execute.rs finish_operation"), ("refunds", P + "execute.rs")],
     ["bank balances", "outcome"], ["peri"])

prop("P02", "Minting through the periphery delivers what was asked within the budget",
     "mint_exact_amount_out with amount A either fails and changes nothing or delivers to the sender exactly A minus the mint fee of the vault, costs at most the attached input and refunds the rest; it is refused when the simulated cost exceeds the attached input, and accepted whenever it fits, prices are as simulated and the vault accepts the mint. mint_exact_amount_in either fails and changes nothing or delivers to the sender, after the mint fee, at least the given minimum for at most the attached input; it is refused when the attached input cannot buy the minimum. Exactly one coin of the named input asset has to be attached.",
     PQ, PW, "the tests that run check single messages built from mocked queries",
     [P + "execute.rs", K + "interface/src/periphery.rs", K + "pool/src/sim/index_out.rs"],
     [("exact output", P + "execute.rs mint_exact_amount_out"), ("exact input", P + "execute.rs mint_exact_amount_in")],
     ["outcome", "bank balances of the sender", "supply"], ["peri"])

prop("P03", "Burning through the periphery pays what was asked for at most the attached tokens",
     "burn_exact_amount_in burns exactly the attached index tokens and pays the sender the proceeds of selling the whole redemption, at least the given minimum (less one base unit per sold asset, the rounding of the per-swap limits), or fails and changes nothing; it is refused when the simulated proceeds are below the minimum. burn_exact_amount_out burns at most the attached tokens, returns every unburned one to the sender and pays the wanted amount up to 5000 base units plus the worth of three index base units, or fails and changes nothing; it is refused when the attached tokens cannot yield the wanted amount. Exactly one coin, of the index token, has to be attached.",
     PQ, PW, "the tests that run check single messages built from mocked queries",
     [P + "execute.rs", K + "interface/src/periphery.rs", K + "pool/src/sim/index_in.rs"],
     [("exact input", P + "execute.rs burn_exact_amount_in"), ("exact output", P + "execute.rs burn_exact_amount_out")],
     ["outcome", "bank balances of the sender", "supply"], ["peri"])

prop("P04", "Periphery simulations tell what the trade would do",
     "simulate_mint_exact_amount_out and simulate_burn_exact_amount_in report the index amount net of the vault's fee, the basket that is bought or redeemed for exactly that trade (fees accrued up to now) and the total price in the named asset that executing the trade at unchanged prices gives. simulate_mint_exact_amount_in and simulate_burn_exact_amount_out report an index amount, its basket and a total at most the given amount and less than 5000 base units below it, consistent with each other and with the vault's fee. A simulation with a missing route or beyond the pools fails.",
     PQ, PW + "; every simulated trade is also executed on a copy of the chain", "no test that runs queries a simulation",
     [P + "query.rs"],
     [("simulations", P + "query.rs")],
     ["simulate_* answers against each other, the specification and executed trades"], ["peri"])

prop("P05", "Every swap of a trade is limited to its share of the caller's limit",
     "The periphery sends for each basket asset exactly one swap: of exactly the amount the vault asks for or redeems, on the route the caller gave, with a limit proportional to its simulated share: for minting the budget (exact output: the attached input; exact input: the simulated total plus 10000 base units of slack), for burning the minimum (exact input: the caller's; exact output: the simulated total). The limits of all swaps together never exceed the budget, so a price worse than that makes the whole trade fail.",
     PQ, PW, "unit tests do not look at the limits of a trade with several assets",
     [P + "execute.rs", K + "interface/src/types.rs"],
     [("limits", P + "execute.rs"), ("swap messages", K + "interface/src/types.rs msg_swap_exact_in / msg_swap_exact_out")],
     ["swap messages reaching the chain", "outcome when the price moved"], ["peri"])

prop("U01", "Upgrades only go forward and keep everything",
     "Migrating the vault, the airdrop contract or the periphery without force succeeds if and only if the stored contract name is the code's own and the stored version is a valid semantic version strictly older than the code's; with force it always succeeds. A successful migration records the code's own name and version and changes nothing else: no other state, no balance, no other contract. A refused one changes nothing.",
     ["configurations", "histories"], "every contract, every stored name and version (releases, pre-releases, malformed texts, nothing stored), every force flag, repeated",
     "one unit test of the shared helper compares three versions; no contract's migration is executed",
     [K + "utils/src/lib.rs", C + "contract.rs", A + "contract.rs", P + "contract.rs"],
     [("version check", K + "utils/src/lib.rs store_version"), ("entry points", "contracts/*/src/contract.rs migrate")],
     ["outcome of migrate", "stored contract_info", "raw storage before and after"], ["upgrade"])

prop("E01", "Events report what was done",
     "The event of every accepted call of the vault, the airdrop contract or a periphery trade names the operation and the caller and tells what was carried out: for a mint the receiver, the refund account and the index tokens created; for a burn the account paid and the index tokens destroyed (without the burn fee); for a rebalance trade the denom, whether it is the reserve itself, and the amounts given and received as booked; for governance calls the new manager, reserve denom, pending or new governor, pause expiry, trade pair with cooldown and limit; for finalize the block height; for airdrops id, type, label, root, signer, claimer and the amount registered, added, paid or refunded (the funds left when closing); for periphery trades what was attached, the asked-for or delivered amounts (index tokens net of the mint fee, to within one base unit) and the simulated refund.",
     ["inputs", "histories"], "every accepted call of the behaviours of the vault, the airdrop contract and the periphery",
     "the tests compare events of a few calls with preset states; trades, airdrops, mints and burns report amounts that no test computes",
     [C + "execute/", A + "execute/", P + "execute.rs"],
     [("vault events", C + "execute/token.rs, execute/gov/, execute/rebalance/"), ("airdrop events", A + "execute/"), ("trade events", P + "execute.rs")],
     ["attributes of the called contract's response"], ["core", "airdrop", "peri"])

T = "ts/sdk/src/contracts/"
prop("N01", "What is asked through the SDK is what the contracts are asked",
     "Every request an application makes through the TypeScript SDK - by the query client, the signing client, the message composer or a query hook - reaches exactly the contract the object was made for as exactly the request the application named: the same operation with the same arguments, arguments left out stay left out, and zero, empty or false values are passed on as such; from the object's sender, with exactly the attached funds (none when none are given), and with the fee and memo given ('auto' and none by default). Exactly one request is made, its answer, result or failure is handed back unchanged, and nothing is remembered from one call to the next, also when calls overlap. Two hooks share a cache key only if they stand for the same query with the same arguments on the same contract.",
     ["inputs", "histories"], "every method of every class, every subset of optional arguments, every nested message, every sender, contract and funds, in any order of calls on the same objects, answered or refused in any order",
     "the SDK has no tests",
     [T + "Core.client.ts", T + "Core.message-composer.ts", T + "Core.react-query.ts", T + "Airdrop.client.ts", T + "Airdrop.message-composer.ts", T + "Airdrop.react-query.ts", T + "Periphery.client.ts", T + "Periphery.message-composer.ts", T + "Periphery.react-query.ts", T + "index.ts"],
     [("translation of calls into messages", T + "Core.client.ts CoreClient"), ("messages for multi-message transactions", T + "Core.message-composer.ts"), ("cache keys", T + "Core.react-query.ts useQuery")],
     ["what the SDK hands to the CosmWasm client", "composed MsgExecuteContract", "query keys"], ["core", "airdrop", "peri", "pages", "sdk"])

prop("N02", "The SDK's types admit what the contracts take and answer",
     "The TypeScript types the SDK exports describe the contracts: every message the contracts take can be written as the SDK's message types and passed to the SDK's methods, and every answer the contracts give has the type the SDK declares for it - no field is missing in the type, none is declared that the answer can lack, and optional and empty values are admitted.",
     ["inputs", "histories"], "every message and every answer reachable in any history",
     "the SDK has no tests, and the contracts' tests never look at the JSON they answer",
     [T + "Core.types.ts", T + "Airdrop.types.ts", T + "Periphery.types.ts", K + "interface/src/core.rs", K + "interface/src/airdrop.rs", K + "interface/src/periphery.rs"],
     [("message and answer types", T + "Core.types.ts"), ("the contracts' side", K + "interface/src/")],
     ["compiling typed uses of recorded messages and answers", "query answers"], ["core", "airdrop", "peri", "pages"])
