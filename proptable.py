# The properties; gen.py turns this into properties.jsonl and MANIFEST.json.
PROPS = [{'id': 'P01',
  'title': 'The quote vault always covers everything still owed in quote tokens',
  'statement': "At every moment of every history the presale's quote vault holds at least the refunds still due to participants plus the proceeds "
               'and deposit fees still due to the creator. Each quote payout moves exactly the amount due to exactly the entitled party, so nobody '
               "can be paid twice or out of somebody else's share. When everyone has been paid, no more than rounding dust remains.",
  'quantifier': {'over': ['histories', 'configurations'],
                 'text': 'every finite history of instructions by any participants, over every sale mode, fee level and release schedule'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_deposit.rs',
                        'programs/presale/src/instructions/process_withdraw.rs',
                        'programs/presale/src/instructions/process_withdraw_remaining_quote.rs',
                        'programs/presale/src/instructions/process_creator_withdraw.rs',
                        'programs/presale/src/instructions/process_creator_collect_fee.rs',
                        'programs/presale/src/state/presale.rs',
                        'programs/presale/src/state/presale_registry.rs'],
              'mechanism': [{'name': 'deposit and refund book-keeping', 'where': 'programs/presale/src/state/presale.rs'},
                            {'name': 'once-only refund flag', 'where': 'programs/presale/src/state/escrow.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P02',
  'title': 'The base vault always covers every allocation and the unsold remainder',
  'statement': "At every moment of a completed sale the base vault holds at least every participant's unclaimed allocation plus the unsold tokens "
               'not yet disposed of, and before completion the whole deposited supply. Claims, the return of the supply after a failed sale and the '
               "disposal of unsold tokens each move exactly the amount due, so no participant's claim can be starved by another's. When everything "
               'is paid out, no more than rounding dust remains.',
  'quantifier': {'over': ['histories', 'configurations'],
                 'text': 'every finite history of instructions by any participants, over every sale mode, fee level and release schedule'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_claim.rs',
                        'programs/presale/src/instructions/process_perform_unsold_base_token_action.rs',
                        'programs/presale/src/instructions/process_creator_withdraw.rs',
                        'programs/presale/src/math/claim_math.rs',
                        'programs/presale/src/presale_mode_handler/mod.rs',
                        'programs/presale/src/state/presale.rs'],
              'mechanism': [{'name': 'cumulative entitlement minus what was claimed', 'where': 'programs/presale/src/math/claim_math.rs'},
                            {'name': 'unsold = supply - sold', 'where': 'programs/presale/src/state/presale.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P03',
  'title': 'Every deposit is recorded exactly and totals equal the sum of positions',
  'statement': "A deposit credits the depositor's position with the accepted amount and the fee, takes exactly that from the payer's wallet, and "
               'changes no other position. At all times during the sale the recorded totals of each registry and of the presale equal the sums over '
               'the open positions, and the number of positions is counted correctly. Anybody may pay a deposit for a position, but it is always the '
               "position's owner who is credited.",
  'quantifier': {'over': ['histories', 'inputs', 'configurations'],
                 'text': 'every history of escrow creations, deposits and withdrawals by several participants in every mode'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_deposit.rs',
                        'programs/presale/src/instructions/process_withdraw.rs',
                        'programs/presale/src/state/presale.rs',
                        'programs/presale/src/state/presale_registry.rs',
                        'programs/presale/src/state/escrow.rs'],
              'mechanism': [{'name': 'escrow, registry and presale counters updated together', 'where': 'programs/presale/src/state/presale.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P04',
  'title': 'Deposits and withdrawals keep every position and the sale inside its limits',
  'statement': "After any accepted deposit or withdrawal a position is either empty or between its registry's minimum and the smaller of its "
               "registry's maximum and its own whitelisted cap. In fixed-price and first-come sales total deposits never exceed the hard cap, and a "
               'fixed-price registry never sells more than its supply; a request beyond the remaining room is trimmed to it, and refused when there '
               'is none. A deposit that fits the limits is never refused.',
  'quantifier': {'over': ['histories', 'inputs', 'configurations'],
                 'text': 'every history of deposits and withdrawals around every limit, several participants and registries'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_deposit.rs',
                        'programs/presale/src/instructions/process_withdraw.rs',
                        'programs/presale/src/presale_mode_handler/fixed_price_presale.rs',
                        'programs/presale/src/presale_mode_handler/fcfs_presale.rs',
                        'programs/presale/src/presale_mode_handler/prorata_presale.rs',
                        'programs/presale/src/state/presale.rs',
                        'programs/presale/src/state/escrow.rs'],
              'mechanism': [{'name': 'remaining deposit quota', 'where': 'programs/presale/src/presale_mode_handler/mod.rs'},
                            {'name': 'buyer cap check', 'where': 'programs/presale/src/state/presale_registry.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P05',
  'title': 'The deposit fee is exact, charged on top, and never mixed with the deposit',
  'statement': 'A deposit of amount a under fee rate f charges on top the smallest fee such that f of the total paid does not exceed it, i.e. '
               'ceil(a/(1-f)) - a, and nothing when the rate is zero. Fees are recorded apart from deposits, never count toward caps, allocations or '
               'proceeds, and are what the creator can collect, less the part refunded in an oversubscribed sale. A failed sale returns fees in '
               'full; withdrawing before the end does not return them early.',
  'quantifier': {'over': ['inputs', 'histories', 'configurations'],
                 'text': 'every fee rate and amount of the explored grid, and every history in worlds with fees'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/math/fee_math.rs',
                        'programs/presale/src/instructions/process_deposit.rs',
                        'programs/presale/src/instructions/process_creator_collect_fee.rs',
                        'programs/presale/src/state/presale.rs',
                        'programs/presale/src/state/presale_registry.rs'],
              'mechanism': [{'name': 'inverse fee computation', 'where': 'programs/presale/src/math/fee_math.rs'},
                            {'name': 'separate fee totals', 'where': 'programs/presale/src/state/presale_registry.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P06',
  'title': 'Each operation is possible exactly in its phase, and the outcome is decided once',
  'statement': 'Positions open, deposits and withdrawals happen only from the start time until just before the end; claims, creator fees and unsold '
               'disposal only once the sale ended having reached its minimum cap; full refunds and the return of the supply only once it ended below '
               'it. At any instant a sale is in exactly one of these phases, an operation in the wrong phase is refused without effect, and the '
               'success or failure of an ended sale never changes afterwards.',
  'quantifier': {'over': ['histories', 'schedules', 'configurations'],
                 'text': 'every operation attempted at every explored instant, including one tick either side of every boundary'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/state/presale.rs',
                        'programs/presale/src/instructions/process_deposit.rs',
                        'programs/presale/src/instructions/process_claim.rs',
                        'programs/presale/src/instructions/process_creator_withdraw.rs',
                        'programs/presale/src/instructions/process_withdraw_remaining_quote.rs'],
              'mechanism': [{'name': 'progress computed from clock and totals', 'where': 'programs/presale/src/state/presale.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P07',
  'title': 'Filling the cap ends the sale at once and shifts the release timetable with it',
  'statement': 'In fixed-price and first-come sales, unless the creator disabled it, the deposit that reaches the hard cap ends the sale at that '
               'instant; lock, vesting and immediate release then keep their distances from the actual end. Otherwise, and in pro-rata sales always, '
               'the sale ends at its announced time and the timetable never moves. The timetable is changed by nothing else.',
  'quantifier': {'over': ['histories', 'schedules', 'configurations'],
                 'text': 'every history that reaches, misses or oscillates around the cap, at every explored instant, in every mode and schedule'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/presale_mode_handler/mod.rs',
                        'programs/presale/src/presale_mode_handler/fixed_price_presale.rs',
                        'programs/presale/src/presale_mode_handler/fcfs_presale.rs',
                        'programs/presale/src/state/presale.rs'],
              'mechanism': [{'name': 'early end', 'where': 'programs/presale/src/presale_mode_handler/mod.rs'},
                            {'name': 'timing recomputation', 'where': 'programs/presale/src/state/presale.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P08',
  'title': 'Withdrawing before the end returns exactly the principal asked for',
  'statement': 'While the sale runs, the owner of a position can take back part or all of its deposit where the mode allows it (always in pro-rata, '
               'in fixed-price unless disabled, never in first-come); the wallet receives exactly what the position, registry and sale totals lose. '
               "Amounts above the position's deposit are refused, a partial fixed-price withdrawal is rounded down to whole units, and what stays "
               'may not fall between zero and the minimum. Later deposits, allocations and refunds are computed as if the withdrawn amount had never '
               'been deposited.',
  'quantifier': {'over': ['histories', 'inputs', 'configurations'],
                 'text': 'every history mixing deposits and withdrawals of several participants in every mode'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_withdraw.rs',
                        'programs/presale/src/state/presale.rs',
                        'programs/presale/src/presale_mode_handler/fixed_price_presale.rs'],
              'mechanism': [{'name': 'withdraw book-keeping', 'where': 'programs/presale/src/state/presale.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P09',
  'title': 'A failed sale returns every deposit with its fee, and all base tokens',
  'statement': 'When a sale ends below its minimum cap every participant can take back the whole deposit and the whole deposit fee, exactly once, in '
               'any order and at any later time. The creator can take back the entire base supply exactly once and gets no quote tokens. Nobody can '
               'claim base tokens.',
  'quantifier': {'over': ['histories', 'configurations'],
                 'text': 'every history of failed sales, with and without fees, several participants and registries'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_withdraw_remaining_quote.rs',
                        'programs/presale/src/instructions/process_creator_withdraw.rs',
                        'programs/presale/src/state/presale.rs',
                        'programs/presale/src/state/escrow.rs'],
              'mechanism': [{'name': 'full refund incl. fee', 'where': 'programs/presale/src/state/escrow.rs'},
                            {'name': 'once-only flags', 'where': 'programs/presale/src/state/escrow.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P10',
  'title': 'An oversubscribed pro-rata sale refunds each participant a proportional share',
  'statement': "When a completed pro-rata sale collected more than its hard cap, each registry's part of the excess is proportional to its deposits, "
               'and each position gets back its proportional part of that and of the matching fees, rounded down, exactly once. The creator receives '
               'exactly the hard cap. A sale at or below its hard cap, and every other mode, refunds nothing after completion.',
  'quantifier': {'over': ['histories', 'inputs', 'configurations'],
                 'text': 'every combination of deposits of several participants and registries on the explored grids, in every order of refund'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_withdraw_remaining_quote.rs',
                        'programs/presale/src/state/presale.rs',
                        'programs/presale/src/state/presale_registry.rs',
                        'programs/presale/src/state/escrow.rs'],
              'mechanism': [{'name': 'registry excess share', 'where': 'programs/presale/src/state/presale.rs'},
                            {'name': 'escrow share', 'where': 'programs/presale/src/state/escrow.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P11',
  'title': "Allocations are each participant's proportional share of what was sold",
  'statement': "When a sale completes, a participant's final allocation is the registry's sold tokens (the whole registry supply in pro-rata and "
               "first-come sales, price-determined in fixed-price sales) multiplied by the participant's part of that registry's deposits, rounded "
               'down. Allocations depend only on final deposits, not on the order or number of deposits, refreshes or claims, and their sum never '
               'exceeds what was sold. A registry without deposits sells nothing.',
  'quantifier': {'over': ['histories', 'inputs', 'configurations'],
                 'text': 'every combination of deposits of several participants and registries, in every order, over every mode'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/math/claim_math.rs',
                        'programs/presale/src/presale_mode_handler/mod.rs',
                        'programs/presale/src/presale_mode_handler/fixed_price_presale.rs',
                        'programs/presale/src/presale_mode_handler/fcfs_presale.rs',
                        'programs/presale/src/presale_mode_handler/prorata_presale.rs'],
              'mechanism': [{'name': 'cumulative claimable by share', 'where': 'programs/presale/src/math/claim_math.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P12',
  'title': 'Tokens are released on the agreed timetable, neither early nor late',
  'statement': 'At any time after completion a participant can have claimed exactly the immediate portion, once its release time has come, plus the '
               'linearly vested part of the rest since the lock ended, rounded down; after the vesting end everything. What can be claimed by a '
               'given time does not depend on how often or when the position was refreshed or claimed before. Nothing is claimable twice, and '
               'entitlement never shrinks with time.',
  'quantifier': {'over': ['schedules', 'histories', 'configurations'],
                 'text': 'every claim/refresh history over the explored instants of every release schedule, before and after early ends'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/math/claim_math.rs',
                        'programs/presale/src/instructions/process_claim.rs',
                        'programs/presale/src/instructions/process_refresh_escrow.rs',
                        'programs/presale/src/state/escrow.rs',
                        'programs/presale/src/presale_mode_handler/mod.rs'],
              'mechanism': [{'name': 'cumulative schedule', 'where': 'programs/presale/src/math/claim_math.rs'},
                            {'name': 'pending claim accumulation', 'where': 'programs/presale/src/state/escrow.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P13',
  'title': 'A fixed-price sale sells whole units at the set price and takes no surplus',
  'statement': 'In a fixed-price sale a deposit is cut down to the quote cost, rounded up, of the whole number of base units that the offered amount '
               'buys; a deposit that buys no unit is refused. The tokens sold by a registry are its total deposits at that price, rounded down and '
               'capped by its supply. The recorded price never differs from the one announced for that sale.',
  'quantifier': {'over': ['inputs', 'histories', 'configurations'],
                 'text': 'every deposit amount of the explored ranges at every explored price below, at and above one, and histories of them'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/presale_mode_handler/fixed_price_presale.rs',
                        'programs/presale/src/instructions/process_deposit.rs',
                        'programs/presale/src/instructions/process_initialize_extra_presale_params.rs'],
              'mechanism': [{'name': 'surplus removal', 'where': 'programs/presale/src/presale_mode_handler/fixed_price_presale.rs'},
                            {'name': 'sold tokens', 'where': 'programs/presale/src/presale_mode_handler/fixed_price_presale.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P14',
  'title': 'Unsold tokens are returned or burned exactly once, and only the unsold ones',
  'statement': 'After a completed sale anybody may trigger the disposal of unsold base tokens, which works exactly once and only if there are any: '
               "it burns them or sends them to the creator's own token account, as announced at creation. The amount is exactly the supply minus "
               "what was sold, whatever claims happened before, and no participant's allocation is touched.",
  'quantifier': {'over': ['histories', 'configurations'],
                 'text': 'every interleaving of claims, creator operations and the disposal, in every mode with and without unsold supply'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_perform_unsold_base_token_action.rs',
                        'programs/presale/src/presale_mode_handler/mod.rs',
                        'programs/presale/src/presale_mode_handler/fixed_price_presale.rs',
                        'programs/presale/src/state/presale.rs'],
              'mechanism': [{'name': 'unsold computation', 'where': 'programs/presale/src/state/presale.rs'},
                            {'name': 'once-only flag', 'where': 'programs/presale/src/state/presale.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P15',
  'title': 'The creator receives exactly the proceeds and the fees, once each',
  'statement': 'After a completed sale the creator can withdraw, exactly once, the deposits up to the hard cap, and collect, exactly once, the '
               "deposit fees not refundable to participants. Both amounts are independent of the order of the participants' refunds and claims, and "
               'neither is available before the end or in a failed sale, where the creator instead gets back the supply once.',
  'quantifier': {'over': ['histories', 'configurations'],
                 'text': 'every interleaving of creator and participant operations after the end, in every mode, fee level and subscription level'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_creator_withdraw.rs',
                        'programs/presale/src/instructions/process_creator_collect_fee.rs',
                        'programs/presale/src/state/presale.rs'],
              'mechanism': [{'name': 'once-only flags', 'where': 'programs/presale/src/state/presale.rs'},
                            {'name': 'proceeds = min(total, cap)', 'where': 'programs/presale/src/state/presale.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P16',
  'title': 'Funds and records only change with the signature of the party they belong to',
  'statement': "No instruction, whatever accounts are passed in whatever role, moves tokens or lamports out of a wallet without its owner's "
               "signature, pays out of a position without its owner's signature, or takes creator money or closes creator records without the "
               "creator's signature. Accounts of another presale, another owner, another type or another program are never accepted in place of the "
               "right ones to anyone's harm. A position is credited only by what really arrived in its own sale's vault.",
  'quantifier': {'over': ['inputs', 'configurations'],
                 'text': 'every instruction with every one and every two of its accounts replaced by every account of the world, and every required '
                         'signature dropped'},
  'why_tests_cant': 'Unit tests never run an instruction; account constraints are spread over all instruction contexts and only a combination of '
                    'substituted accounts shows a missing one.',
  'anchors': {'files': ['programs/presale/src/instructions/process_deposit.rs',
                        'programs/presale/src/instructions/process_claim.rs',
                        'programs/presale/src/instructions/process_withdraw.rs',
                        'programs/presale/src/instructions/process_withdraw_remaining_quote.rs',
                        'programs/presale/src/instructions/process_creator_withdraw.rs',
                        'programs/presale/src/instructions/process_creator_collect_fee.rs',
                        'programs/presale/src/instructions/process_perform_unsold_base_token_action.rs',
                        'programs/presale/src/instructions/process_close_escrow.rs',
                        'programs/presale/src/instructions/process_revoke_operator.rs',
                        'programs/presale/src/instructions/process_close_merkle_root_config.rs'],
              'mechanism': [{'name': 'account constraints (has_one, seeds, signer)', 'where': 'programs/presale/src/instructions/mod.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P17',
  'title': 'A Merkle-whitelisted sale admits exactly the listed participants on their terms',
  'statement': 'In a Merkle-whitelisted sale a position can be opened only for an owner, registry and cap that together are an entry of the '
               'whitelist whose root the creator recorded for that sale, proven by a valid proof; every listed entry whose cap suits its registry '
               'can be opened by anyone willing to pay rent. The position carries exactly the listed cap and registry, and each owner and registry '
               'gets one position at most. Other ways of opening positions are refused in such a sale.',
  'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                 'text': 'every (owner, registry, cap) around the list with every proof of the tree, mutations of it and every root account of the '
                         'world'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs',
                        'programs/presale/src/instructions/create_escrow/process_create_escrow.rs',
                        'programs/presale/src/state/merkle_root_config.rs'],
              'mechanism': [{'name': 'proof verification over owner, registry, cap',
                             'where': 'programs/presale/src/instructions/create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P18',
  'title': 'An operator-whitelisted sale admits only what a live operator of its creator signs',
  'statement': "In an operator-whitelisted sale a position is opened only with the signature of an operator whom the sale's creator appointed and "
               'has not revoked, for exactly the owner, registry and cap given, where the cap suits the registry. Only the creator can appoint or '
               "revoke, and revocation takes effect immediately. Permissionless sales let anyone open a position for anyone and use the registry's "
               'own maximum; each sale accepts only its own way of opening positions.',
  'quantifier': {'over': ['inputs', 'histories', 'configurations'],
                 'text': 'every history of appointments, revocations and position openings by every signer, over every sale and whitelist mode'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/create_escrow/process_create_permissioned_escrow_with_creator.rs',
                        'programs/presale/src/instructions/create_escrow/process_create_permissionless_escrow.rs',
                        'programs/presale/src/instructions/process_create_operator.rs',
                        'programs/presale/src/instructions/process_revoke_operator.rs',
                        'programs/presale/src/state/operator.rs'],
              'mechanism': [{'name': 'operator bound to creator',
                             'where': 'programs/presale/src/instructions/create_escrow/process_create_permissioned_escrow_with_creator.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P19',
  'title': "The whitelist tool's trees and proofs are exactly what the program accepts",
  'statement': "For every whitelist, each entry's proof from the off-chain tool verifies against the tool's root both in the tool and in the "
               'on-chain program, and no proof verifies for any other owner, registry or cap. The root and proofs depend on the entries alone. When '
               'an owner is listed more than once, the last entry counts.',
  'quantifier': {'over': ['inputs'],
                 'text': "every list size up to the bound, every entry, every other entry's proof and every neighbouring owner, registry and cap"},
  'why_tests_cant': "The tool's tests build a few random trees and check positive proofs only.",
  'anchors': {'files': ['merkle-tree/src/config_merkle_tree.rs',
                        'merkle-tree/src/merkle_tree.rs',
                        'merkle-tree/src/tree_node.rs',
                        'programs/presale/src/instructions/create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs'],
              'mechanism': [{'name': 'leaf and node hashing with prefixes', 'where': 'merkle-tree/src/merkle_tree.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P20',
  'title': 'A presale can be created exactly with valid terms',
  'statement': 'Creating a presale succeeds exactly when its terms make sense: a positive minimum cap not above the hard cap, a duration and a '
               'waiting time within the published bounds, one to five registries (several only with a whitelist) each with supply, consistent buyer '
               'limits within the hard cap and a fee of at most half, a consistent release schedule, known modes, and for fixed prices a price at '
               'which the limits buy whole tokens and the supply covers the cap. Anything else is refused without effect. Permissioned sales must '
               'leave buyer limits at their widest, the personal limits being set per position.',
  'quantifier': {'over': ['inputs', 'configurations'],
                 'text': 'every single and pairwise perturbation of every parameter to values on both sides of each boundary, for every mode and '
                         'whitelist mode'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/initialize_presale/params.rs',
                        'programs/presale/src/instructions/initialize_presale/process_initialize_presale.rs',
                        'programs/presale/src/presale_mode_handler/mod.rs',
                        'programs/presale/src/presale_mode_handler/fixed_price_presale.rs',
                        'programs/presale/src/instructions/process_initialize_extra_presale_params.rs'],
              'mechanism': [{'name': 'argument validation', 'where': 'programs/presale/src/instructions/initialize_presale/params.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P21',
  'title': 'The announced terms are recorded faithfully, fully funded, and never change',
  'statement': 'Creation records exactly the announced terms, mints, creator and timetable, starts with empty totals, and moves exactly the promised '
               'supply into a vault only the program controls. From then on no operation by anyone changes the terms (mode, caps, registries, '
               'supplies, fees, price, release schedule, owner, mints, vaults); only the end time moves, as the early-end rule says. Opening a '
               'position records its owner, registry and cap, and these never change either.',
  'quantifier': {'over': ['histories', 'inputs', 'configurations'],
                 'text': 'every finite history of instructions by any participants, over every sale mode, fee level and release schedule, and every '
                         'accepted creation of the parameter lattice'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/initialize_presale/process_create_presale_vault.rs',
                        'programs/presale/src/instructions/initialize_presale/process_initialize_presale.rs',
                        'programs/presale/src/state/presale.rs',
                        'programs/presale/src/state/presale_registry.rs',
                        'programs/presale/src/state/escrow.rs'],
              'mechanism': [{'name': 'presale initialization', 'where': 'programs/presale/src/state/presale.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P22',
  'title': 'A position can be closed exactly when nothing is owed on it',
  'statement': 'The owner can close a position while the sale runs only if it holds neither deposit nor fee, after a failed sale only once refunded, '
               'and after a completed sale only once every token has been claimed and any due refund taken. Closing hands its rent to the receiver '
               "the owner names, keeps everybody else's entitlements unchanged, and can never be used to claim or be refunded a second time. A "
               'participant who owns nothing in the sale can always close.',
  'quantifier': {'over': ['histories', 'configurations'],
                 'text': 'every history that reaches a close attempt in every state of the position, followed by everything else'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_close_escrow.rs',
                        'programs/presale/src/state/escrow.rs',
                        'programs/presale/src/state/presale.rs'],
              'mechanism': [{'name': 'close conditions', 'where': 'programs/presale/src/instructions/process_close_escrow.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P23',
  'title': 'Transfer fees, hooks and memos of Token-2022 mints never break the accounts',
  'statement': 'With mints that charge transfer fees (even changing over epochs), run transfer hooks or require memos, deposits still credit exactly '
               'what arrives in the vault, the supply arrives in full at creation, and payouts leave the vault by exactly the amount due with the '
               'receiver bearing the fee. Hooks run exactly once for every transfer. Mints with any other extension, and the wrapped native mint of '
               'that program, are refused at creation.',
  'quantifier': {'over': ['inputs', 'histories', 'configurations'],
                 'text': 'every pair of explored token kinds for base and quote, over whole lifecycles and over grids of amounts and fee rates'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/token2022.rs',
                        'programs/presale/src/instructions/process_deposit.rs',
                        'programs/presale/src/instructions/process_claim.rs',
                        'programs/presale/src/instructions/initialize_presale/process_initialize_presale.rs'],
              'mechanism': [{'name': 'fee-included amount', 'where': 'programs/presale/src/token2022.rs'},
                            {'name': 'extension allow-list', 'where': 'programs/presale/src/token2022.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P24',
  'title': "Presales and participants never affect each other's accounts",
  'statement': 'An operation touches only the accounts of the sale and the position it addresses and the wallets it names. In particular it never '
               "changes another presale, its vaults or positions, even with the same creator, mints and participants, nor another participant's "
               'position or wallet in the same sale. Refused operations change nothing.',
  'quantifier': {'over': ['histories', 'configurations'],
                 'text': 'every finite history of instructions by any participants, over every sale mode, fee level and release schedule next to a '
                         'second live sale with the same mints, creator and participants'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/mod.rs', 'programs/presale/src/state/presale.rs'],
              'mechanism': [{'name': 'per-sale derived addresses', 'where': 'programs/presale/src/constants.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P25',
  'title': 'Every operation announces exactly what happened',
  'statement': 'Each successful operation on a sale, a position, a whitelist root, an operator appointment, a whitelist-server record or a price '
               'sheet emits exactly one event of its kind, whose contents (sale, position, party, amounts actually paid or received, resulting '
               'totals) equal what the operation did; only revoking an operator is silent. Refused operations announce nothing.',
  'quantifier': {'over': ['histories', 'configurations'],
                 'text': 'every finite history of instructions by any participants, over every sale mode, fee level and release schedule'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/events.rs',
                        'programs/presale/src/instructions/process_deposit.rs',
                        'programs/presale/src/instructions/process_claim.rs',
                        'programs/presale/src/instructions/process_withdraw.rs',
                        'programs/presale/src/instructions/process_withdraw_remaining_quote.rs'],
              'mechanism': [{'name': 'event emission', 'where': 'programs/presale/src/events.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P26',
  'title': 'No valid sale can get stuck: whatever is due can always be taken out',
  'statement': 'For every sale that could be created, at any magnitude of caps, supplies, prices and rates, deposits within the limits are accepted '
               'and every refund, claim, withdrawal, close, proceeds, fee and unsold operation that is due succeeds whenever attempted, in any order '
               'and at any time. No rounding, overflow or ordering leaves a participant or the creator permanently unable to take what is theirs.',
  'quantifier': {'over': ['histories', 'inputs', 'configurations'],
                 'text': 'every history of the explored worlds including extreme magnitudes; the model says which operations are due'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/math/claim_math.rs',
                        'programs/presale/src/math/safe_math.rs',
                        'programs/presale/src/presale_mode_handler/fixed_price_presale.rs',
                        'programs/presale/src/state/presale.rs'],
              'mechanism': [{'name': 'checked arithmetic that must not trip on valid sales', 'where': 'programs/presale/src/math/safe_math.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'},
 {'id': 'P27',
  'title': 'Whitelist roots, operators, server metadata and price terms live and die by the rules',
  'statement': 'A whitelist root, operator appointment, whitelist-server record or fixed-price term sheet holds exactly what its creator supplied, '
               "exists at most once per address, and is never altered in place. Roots and server records can be made only by the sale's own creator "
               'and only for sales of the fitting whitelist kind; each record can be closed only by its creator, returning its rent, and a root not '
               'while its sale is running. Creating or closing them never affects positions, funds or terms of any sale.',
  'quantifier': {'over': ['histories', 'inputs', 'configurations'],
                 'text': 'every history of creating and closing these records by creator and stranger, over all whitelist modes and phases'},
  'why_tests_cant': "The repository's unit tests evaluate single arithmetic helpers and struct sizes; none runs an instruction, let alone a history "
                    'of them.',
  'anchors': {'files': ['programs/presale/src/instructions/process_create_merkle_root_config.rs',
                        'programs/presale/src/instructions/process_close_merkle_root_config.rs',
                        'programs/presale/src/instructions/process_create_operator.rs',
                        'programs/presale/src/instructions/process_revoke_operator.rs',
                        'programs/presale/src/instructions/process_create_permissioned_server_metadata.rs',
                        'programs/presale/src/instructions/process_close_merkle_proof_metadata.rs',
                        'programs/presale/src/instructions/process_initialize_extra_presale_params.rs',
                        'programs/presale/src/instructions/process_close_extra_presale_params.rs'],
              'mechanism': [{'name': 'seeds and ownership constraints',
                             'where': 'programs/presale/src/instructions/process_create_merkle_root_config.rs'}]},
  'note': "Exhaustive search of finite worlds: every sequence of the menu's operations over the listed time points, each executed by the real "
          'program and compared with the model. Trusts the mini-SVM (accounts, CPI, sysvars) and the finite menus.'}]
