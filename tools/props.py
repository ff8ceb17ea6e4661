#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (claimed = has rules in engine/rules)"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, K = 'contracts/', 'packages/'
GCC = C + 'enterprise-governance-controller/src/contract.rs'
GCV = C + 'enterprise-governance-controller/src/validate.rs'
T = {}
def p(i, title, st, files, mech, over='inputs histories', q=None, why=None):
    T[i] = dict(id=i, title=title, statement=st, quantifier=dict(over=over.split(), text=q or 'every message, sender and attached funds, in every reachable stored state of the DAO'),
                why_tests_cant=why or 'The contract has no unit tests of this path in the repository, and tests could only sample senders, parameters and stored states; the guarantee is over all of them.',
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
p('C01', 'Only the treasury admin moves treasury funds or settings', 'Every treasury operation other than the open migration step succeeds only when its caller is the admin on record. The admin changes only through that admin naming a valid successor.', [C + 'enterprise-treasury/src/contract.rs'], [('admin check', C + 'enterprise-treasury/src/contract.rs execute')])
p('C02', 'DAO settings change only through its governance controller', 'After set-up, the DAO\'s metadata, configuration, attestation, version and component addresses change only at the request of its governance controller, and each request alters exactly what it names. The component addresses are set once, by the creator of the contract. Queries report the stored components and DAO data faithfully.', [C + 'enterprise/src/contract.rs', C + 'enterprise/src/validate.rs'], [('controller check', C + 'enterprise/src/validate.rs'), ('one-time finalisation', C + 'enterprise/src/contract.rs finalize_instantiation')])
p('C03', 'Only the governance controller operates polls', 'Creating, voting in, ending and updating polls in the governance contract succeeds only for the admin on record, which is the governance controller. Nobody can replace that record afterwards.', [C + 'enterprise-governance/src/contract.rs'], [('admin check', C + 'enterprise-governance/src/contract.rs')])
p('C04', 'Membership settings change only at the DAO\'s request', 'Unlocking periods, multisig members and weights, and the registration of weight-change listeners change only at the request of the DAO that owns the membership contract. A direct caller can never alter another member\'s weight or the list of listeners.', [K + 'membership-common/src', K + 'multisig-membership-impl/src/execute.rs', K + 'token-staking-impl/src', K + 'denom-staking-impl/src', K + 'nft-staking-impl/src'], [('governance controller check', K + 'membership-common/src/validate.rs')])
p('C05', 'Only the admin feeds weights into reward accounting', 'In the reward distributor, user weights and the minimum eligible weight change only at the request of the admin on record. The admin and linked contracts are fixed at creation.', [C + 'funds-distributor/src/contract.rs', C + 'funds-distributor/src/user_weights.rs'], [('admin check', C + 'funds-distributor/src/user_weights.rs')])
p('C06', 'Internal entry points accept only their intended caller', 'Proposal actions run only when the governance controller calls itself; weight changes are accepted only from the DAO\'s own membership contracts. The initial remote treasuries can be deployed only once, by the creator of the contract, in the block in which it was created.', [GCC], [('self-call check', GCC + ' execute_proposal_actions'), ('weights_changed', GCC + ' weights_changed'), ('initial deployment', GCC + ' execute_deploy_initial_cross_chain_treasuries')])
p('C07', 'Factory and version registry change only through their admins', 'The factory\'s configuration and the registry of published versions change only at the request of their respective admin. A published version is never overwritten by publishing again, and editing touches only the named fields of an existing version.', [C + 'enterprise-factory/src/contract.rs', C + 'enterprise-versioning/src/contract.rs'], [('admin checks', C + 'enterprise-versioning/src/contract.rs')])
p('C08', 'Remote treasuries obey only the DAO; callbacks are authenticated, one-shot', 'Deploying or commanding a remote treasury succeeds only for the DAO\'s governance controller and always addresses the proxy and treasury recorded for the requested chain. A callback from another chain is accepted only for an outstanding request, from the account that stands for that chain\'s proxy, and at most once; it never replaces an already recorded proxy or treasury.', [C + 'enterprise-outposts/src/contract.rs', C + 'enterprise-outposts/src/validate.rs'], [('callback check', C + 'enterprise-outposts/src/contract.rs')], over='inputs histories schedules')
p('C09', 'Users who did not sign the attestation are kept out', 'While a DAO has an attestation, a user who has not signed it can neither gain a stake, propose, vote, trigger execution, nor claim rewards. A user counts as restricted exactly when there is an attestation the user has not signed; signing is recorded for the signer only.', [GCC, C + 'enterprise/src/contract.rs', C + 'funds-distributor/src/claim.rs', C + 'attestation/src/contract.rs'], [('restriction query', C + 'enterprise/src/contract.rs query_is_restricted_user')])
p('C10', 'A proposal executes at most once, only if passed and due', 'A proposal can be executed only if it exists, was never executed before, and any waiting time after its outcome last changed is over. Its actions run exactly when its poll ended as passed, measured against the total voting power of its own body; once settled it is marked executed for good.', [GCC], [('execute_proposal/end_proposal', GCC), ('resolve_ended_proposal', GCC), ('reply', GCC)])
p('C11', 'Proposal deposits are custodied exactly and settled once', 'The deposit recorded with a proposal is exactly what was handed over with its creation, and an NFT deposit consists of distinct tokens the proposer may hand over. When the proposal is settled the whole deposit goes once, either back to its owner or, for a general proposal that failed quorum or was vetoed, to the treasury; it never leaves at any other time.', [GCC], [('deposit', GCC + ' determine_deposit_and_create_proposal'), ('return', GCC + ' resolve_ended_proposal')])
p('C12', 'Only members or sufficient depositors may propose', 'A general proposal is opened only for an unrestricted proposer who holds voting power or hands over at least the configured minimum deposit. Its poll runs for the configured voting period with the configured quorum, threshold and veto threshold, and it holds at most ten actions exactly as given.', [GCC], [('create_proposal', GCC), ('create_poll', GCC)])
p('C13', 'The council acts only within its delegated powers', 'Council proposals can be made and voted on only by unrestricted council members of a DAO that has a council, contain only the kinds of action delegated to it, and are decided by the council\'s own quorum and threshold. Control over funds, governance settings, council and membership can never be delegated.', [GCC, GCV], [('create_council_proposal', GCC), ('validate_allowed_council_proposal_types', GCV)], over='inputs histories configurations')
p('C14', 'Passed actions do exactly what they say', 'Each action of a passed proposal is turned into exactly the operation it describes, with its own parameters, addressed to the component it concerns; treasury actions aimed at another chain go to that chain only. Actions are carried out in the listed order, none is skipped or repeated, and nothing else is sent.', [GCC], [('execute_proposal_actions_submsgs', GCC)])
p('C15', 'Votes count with the voter\'s own weight in the right body', 'A vote is passed on only for an unrestricted sender with voting power in the body the proposal belongs to, with exactly that sender\'s weight and choice. When a vote changes the expected outcome of a general proposal that may end early, execution is delayed by a tenth of the voting period but never past the end of voting.', [GCC], [('cast_vote, cast_council_vote', GCC), ('reply to a cast vote', GCC)])
p('C16', 'Governance settings in force are always valid', 'The governance settings in force always have a non-zero voting period and quorum, threshold and veto threshold above zero and at most one; a multisig DAO never has a minimum deposit. They change only through a passed action, field by field as requested, and a new unlocking period is never shorter than the voting period in force.', [GCC, GCV], [('validate_dao_gov_config', GCV), ('update_gov_config', GCC)], over='inputs histories configurations')
p('C17', 'Calls awaiting a reply are tracked one-to-one', 'What a pending poll creation, vote or execution needs is recorded when it starts, used and cleared by its own reply, and never mixed with another pending call. A proposal is stored under the identifier of the very poll created for it, and unknown replies are refused.', [GCC], [('reply', GCC)], over='inputs histories schedules')
p('C18', 'Poll tallies always equal the recorded votes', 'Casting a vote replaces the voter\'s earlier vote: each outcome\'s count changes by exactly the new weight minus the old, and nothing else about the poll changes. When a voter\'s weight changes, every vote of theirs in a poll still open is re-counted with the new weight and all other votes are left alone.', [K + 'poll-engine/src', C + 'enterprise-governance/src/contract.rs'], [('cast_vote', K + 'poll-engine/src/execute.rs'), ('update_votes', K + 'poll-engine/src/execute.rs')], why='Existing poll-engine tests sample a few vote sequences; the guarantee is over all sequences, weights and outcomes.')
p('C19', 'Votes count only while a poll is open', 'A new poll gets a fresh identifier, starts at once with an empty tally and ends strictly later. A vote counts only from the start until strictly before the end of a poll that has not been ended; a poll ends only when its time is over or, where early ending is allowed, when quorum and a deciding threshold are already reached; and then it can be ended.', [K + 'poll-engine/src'], [('validate', K + 'poll-engine/src/validate.rs')], why='Existing poll-engine tests sample a few instants; the guarantee is over all block times and poll parameters.')
p('C20', 'Poll outcomes follow quorum, veto and threshold', 'A poll is decided by quorum first, then by veto, then by the threshold among votes that do not abstain; ties and unreached thresholds reject. Previewing the outcome gives the same answer as ending the poll, and ending changes nothing but the status.', [K + 'poll-engine/src'], [('end_poll', K + 'poll-engine/src/execute.rs'), ('state', K + 'poll-engine/src/state.rs')], why='Existing poll-engine tests sample tallies; the guarantee is over every tally, total weight and parameter choice.')
p('C21', 'Stake is credited only for deposits really received', 'A member\'s stake grows only by coins, tokens or NFTs actually handed to the membership contract in the same call, from the configured asset and in the full amount received, and is credited to the member named by the depositor. Anything else sent is refused or has no effect on stakes.', [K + 'token-staking-impl/src/execute.rs', K + 'denom-staking-impl/src/execute.rs', K + 'nft-staking-impl/src/execute.rs'], [('stake', K + 'token-staking-impl/src/execute.rs')])
p('C22', 'Individual and total weights move together', 'Whenever a member\'s weight changes, the total weight changes by the same amount in the same call, and both the current and the historic record of the total are updated. Historic totals are never rewritten. A list of multisig members that names someone twice is refused.', [K + 'membership-common/src'], [('total weight', K + 'membership-common/src/total_weight.rs'), ('member weights', K + 'membership-common/src/member_weights.rs')])
p('C23', 'Unstaking never exceeds the stake and always creates a claim', 'A member can unstake at most what that member has staked, or NFTs that member staked. What is unstaked immediately stops counting, and becomes exactly one claim of the same amount for the same member, released after the configured unlocking period.', [K + 'token-staking-impl/src/execute.rs', K + 'denom-staking-impl/src/execute.rs', K + 'nft-staking-impl/src/execute.rs'], [('unstake', K + 'token-staking-impl/src/execute.rs')])
p('C24', 'Claims pay out once, in full, only when matured', 'Claiming pays a member exactly the sum of that member\'s matured claims, from the staked asset, to that member (or the named beneficiary of the claims), and removes those claims and no others. Immature claims stay untouched.', [K + 'token-staking-impl/src', K + 'denom-staking-impl/src', K + 'nft-staking-impl/src'], [('claim', K + 'token-staking-impl/src/execute.rs')])
p('C25', 'Every weight change reaches votes and rewards', 'Whenever members\' weights change, every affected member\'s new weight is reported to all registered listeners in the same call, including members who drop to zero. The governance controller passes each change from the main membership on to the running polls and to the reward distributor, and ignores changes of the council.', [K + 'membership-common/src/weight_change_hooks.rs', K + 'multisig-membership-impl/src/execute.rs', GCC], [('report_weight_change_submsgs', K + 'membership-common/src/weight_change_hooks.rs'), ('weights_changed', GCC)])
p('C26', 'Rewards are settled before a weight changes', 'Before a member\'s recorded weight or the eligibility minimum changes, the rewards accrued so far under the old effective weight are booked for that member, for every asset. The total effective weight always moves by exactly the change of the members\' effective weights.', [C + 'funds-distributor/src/user_weights.rs', C + 'funds-distributor/src/eligibility.rs'], [('update_user_weights', C + 'funds-distributor/src/user_weights.rs')])
p('C27', 'A reward claim pays what is due and resets it', 'Claiming pays a member, for every requested asset, exactly the booked plus newly accrued rewards that the query reports, to that member only, and resets them so that nothing can be claimed twice.', [C + 'funds-distributor/src/claim.rs', C + 'funds-distributor/src/rewards.rs'], [('claim_rewards', C + 'funds-distributor/src/claim.rs')])
p('C28', 'Distributions credit exactly what was received', 'A distribution raises the per-weight reward index of an asset by exactly the received amount divided by the total eligible weight, and only for assets whitelisted by the treasury or globally by the factory; assets on either list can be distributed. It fails when nobody is eligible, so that no funds are taken without being credited.', [C + 'funds-distributor/src/distributing.rs', C + 'funds-distributor/src/contract.rs'], [('distribute', C + 'funds-distributor/src/distributing.rs')])
p('C29', 'Members below the minimum weight earn nothing', 'A member\'s effective weight for rewards is the full weight at or above the minimum eligible weight and zero below it. When the minimum changes, every member\'s effective weight and the total follow.', [C + 'funds-distributor/src/eligibility.rs'], [('eligibility', C + 'funds-distributor/src/eligibility.rs')])
p('C30', 'DAO upgrades move forward through published versions', 'A DAO is only ever upgraded to a higher version, migrating through the published code of every version after the current one up to the target, each with the message supplied for that version. Each component is migrated to the code published for its own kind, and the registry lists versions in ascending order without gaps or repetition.', [C + 'enterprise/src/contract.rs', C + 'enterprise-versioning/src/contract.rs'], [('upgrade_dao', C + 'enterprise/src/contract.rs'), ('migrate', C + 'enterprise/src/contract.rs')], over='inputs histories configurations')
p('C31', 'New DAOs are wired correctly', 'When a DAO is created, every component is instantiated from the code published for its kind, owned by the new DAO and linked to its governance controller; each created address is recorded in its own place and handed over when creation is finalised. Members get the weights asked for, and reward accounting starts with exactly those weights. Unknown or unexpected replies are refused, and the DAO is registered once under a fresh identifier.', [C + 'enterprise-factory/src/contract.rs'], [('create_dao', C + 'enterprise-factory/src/contract.rs'), ('reply', C + 'enterprise-factory/src/contract.rs')], over='inputs histories configurations')
p('C32', 'The facade answers exactly what the DAO would', 'A query to the facade is answered by the implementation that matches the DAO\'s generation, with the same question and parameters, and its answer is returned unchanged. The implementations report what the DAO\'s own contracts say about it: its settings, components, members, stakes, claims, whitelists, proposals and votes. A proposal of an old DAO that is still marked in progress is reported with the status that ending it now would give.', [C + 'enterprise-facade/src/contract.rs', C + 'enterprise-facade/src/facade.rs', C + 'enterprise-facade-v2/src/facade_v2.rs', C + 'enterprise-facade-v1/src/facade_v1.rs'], [('get_facade', C + 'enterprise-facade/src/facade.rs'), ('query_*', C + 'enterprise-facade-v2/src/facade_v2.rs')], over='inputs configurations', q='every question, its parameters, and every answer of the DAO asked')
p('C33', 'Stored addresses are always validated', 'Whenever a contract records an account or contract address that it took from a message - as owner, admin, component, member, hook, depositor, claimant, whitelisted asset or collection - the chain has validated that address in the same call. (Settings and proposals handed over in final form when the factory or a migrated governance controller is instantiated are taken as they are.)', [C, K], [('addr_validate', 'execute, reply and instantiate handlers of all contracts')])
p('C34', 'Migration of old stakes loses and duplicates nothing', 'While an old-generation DAO is migrated, each old stake and claim is handed to the new membership contract exactly once and then forgotten. A step that used up its limit while entries may be left never declares the migration complete. The migration step can run only while something is left to migrate and never touches other funds.', [C + 'enterprise-treasury/src/migration.rs', C + 'enterprise-treasury/src/migration_stages.rs', C + 'enterprise-treasury/src/staking.rs', C + 'enterprise-treasury/src/nft_staking.rs'], [('perform_next_migration_step', C + 'enterprise-treasury/src/migration.rs')], over='inputs histories crash_points')
p('C35', 'Listings are bounded and page without gaps', 'Every paged listing of versions, DAOs, code ids, remote treasuries, whitelists, members, staked NFTs, proposals and the votes on a proposal returns at most its maximum page size whatever limit is asked for (the votes of one voter: at most the limit asked for), in ascending order, and continues strictly after the given starting point, so that pages neither overlap nor skip entries.', [C, K], [('limits', 'query functions of all contracts')])
p('C36', 'The treasury spends exactly what was ordered', 'A spend sends each listed asset exactly once, in the listed amount, to the named recipient; a distribution passes exactly the listed funds to the given distributor; raw messages are forwarded unchanged. Whitelist updates add and remove exactly the listed assets and collections and move no funds.', [C + 'enterprise-treasury/src/contract.rs', C + 'enterprise-treasury/src/asset_whitelist.rs'], [('spend', C + 'enterprise-treasury/src/contract.rs')])
p('C37', 'Staked NFTs stay in custody of their staker', 'An NFT is recorded as staked only when it arrives from the configured collection, for the member it is staked for, and at most once at a time; it leaves custody only through that member\'s matured claim. NFTs handed over through the bridge proxy go only to their intended receiver.', [K + 'nft-staking-impl/src', K + 'ics721-callback-proxy-impl/src'], [('nft stakes', K + 'nft-staking-impl/src/nft_staking.rs')])
p('C38', 'Malformed proposal actions are refused at creation', 'A proposal is refused when made if it contains an action that could not be valid: governance settings out of range, an invalid council, a version that is not higher, repeated or invalid members or collections, an asset or collection both added and removed, unsupported assets, or raw messages that cannot be read. Well-formed actions of every kind can be proposed.', [GCV], [('validate_proposal_actions', GCV)])
p('C39', 'No DAO is created that nobody could run', 'Creating a DAO is refused when it would start without anyone able to act: a multisig without members or an imported one without weight, a token DAO whose token has neither holders nor a minter, a zero initial balance, or an imported contract that is not of the kind named. It is also refused when stakes could be withdrawn sooner than a vote lasts.', [C + 'enterprise-factory/src/contract.rs', C + 'enterprise-factory/src/token_membership.rs', C + 'enterprise-factory/src/multisig_membership.rs', C + 'enterprise-factory/src/nft_membership.rs', C + 'enterprise-factory/src/validate.rs'], [('validations', C + 'enterprise-factory/src/validate.rs'), ('import_cw3_membership', C + 'enterprise-factory/src/multisig_membership.rs')], over='inputs configurations')
p('C40', 'The facade tells users to send exactly what they asked for', 'The messages the facade returns for staking, unstaking, claiming, proposing, voting and executing, sent in the order given, go to the contract of the DAO concerned and ask it for exactly what the user asked the facade for, with exactly the funds that takes. What a DAO of that kind or generation cannot do is refused rather than turned into something else.', [C + 'enterprise-facade-v2/src/facade_v2.rs', C + 'enterprise-facade-v1/src/facade_v1.rs', C + 'enterprise-facade-v1/src/v1_structs.rs', C + 'enterprise-facade/src/contract.rs'], [('adapt_* of new DAOs', C + 'enterprise-facade-v2/src/facade_v2.rs'), ('adapt_* of old DAOs', C + 'enterprise-facade-v1/src/facade_v1.rs')], over='inputs configurations', q='every adapted message, its parameters, and every answer of the DAO asked')
p('C41', 'The reported status of a proposal is the truth', 'A proposal is reported as executed exactly when it has been; otherwise, once voting is over, it is reported as passed or rejected, as ending the poll with the votes available in its own body at the end would decide, never as running. While voting runs it is reported as ready for early execution exactly when early ending is allowed, its delay is over and the simulated outcome is passed, rejected or vetoed. Type, actions, times, tally and available votes are those recorded.', [GCC], [('query_proposal, query_proposals, query_proposal_status', GCC), ('fix_poll_status, poll_to_proposal_response', GCC)], why='The existing tests never ask for a proposal in most of these states; the status depends on the poll, the proposal record, the DAO configuration, two membership contracts and the clock together.')
p('C42', 'Contracts answer with what they have recorded', 'Asked for one of its settings or records - components, DAO information, configuration, admin, versions, global whitelists, recognised codes, a member\'s weight, a total weight at a moment, a poll, a vote, a member\'s NFTs, the state of a migration - a contract answers with exactly what is recorded under the thing asked about, at the moment asked about. The other contracts and the facade decide on these answers who may act and how much they weigh.', [C, K], [('query', 'all contracts'), ('query_component_contracts', C + 'enterprise/src/contract.rs'), ('query_total_weight', K + 'token-staking-impl/src/query.rs'), ('query_is_enterprise_code_id', C + 'enterprise-factory/src/contract.rs')], over='inputs histories configurations', why='Every authorisation and every weight in the system is the answer to a query of another contract; the tests mock most of these answers instead of asking the real contract.')
# outside what this analysis can decide
NA = {
 'C90': ('Reward claims never exceed the rewards received', 'The sum of all rewards ever paid or payable for an asset never exceeds what was distributed of it, rounding included.', [C + 'funds-distributor/src'], 'Needs an inductive bound on sums of rounded products over all members and histories; a static value-flow argument cannot bound these runtime quantities. C26-C29 decide the structural part (settlement, index, reset).'),
 'C91': ('Remote account addresses are derived correctly', 'The account a remote chain\'s proxy acts through is computed exactly as the chain\'s bridge computes it.', [C + 'enterprise-outposts/src/ibc_hooks.rs'], 'Correctness of a hash and bech32 encoding is a numeric function of runtime bytes; static analysis of the source has no oracle for it. C08 decides that the derived value is what callbacks are checked against.'),
 'C92': ('Custody balances cover all stakes and claims', 'The tokens held by a membership contract are always at least the sum of all stakes and unclaimed claims.', [K + 'token-staking-impl/src', K + 'denom-staking-impl/src'], 'Depends on the balances kept by other contracts and the chain and on sums over unbounded maps; not derivable from this source statically. C21-C24 decide every transition that feeds it.'),
}
claimed = set()
for f in glob.glob(V + '/engine/rules/*.py'): claimed |= set(re.findall(r"'(C\d\d)'", '\n'.join(l for l in open(f) if l.startswith('@prop'))))
HOLD = set()
ids = sorted(i for i in T if i in claimed and i not in HOLD)
with open(V + '/properties.jsonl', 'w') as f:
    for i in ids: f.write(json.dumps(T[i]) + '\n')
    for i, (t, s, fl, r) in NA.items():
        f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=['inputs', 'histories'], text='every history of the contracts'), why_tests_cant='Quantifies over all histories and amounts.', anchors=dict(files=fl, mechanism=[dict(name='accounting', where=fl[0])]))) + '\n')
note = 'Decided for all inputs and stored states by guard entailment and value provenance on the summaries of the real MIR; trusts the library summaries (std, cosmwasm-std, cw-storage-plus, cw-asset, cw-utils) in engine/lib.py, the MIR dumper and roll-back of failed calls. No amounts are bounded numerically.'
m = dict(version=1, setup_cmd='bash setup.sh', checks=[dict(property=i, quick_cmd='bash check.sh %s quick' % i, thorough_cmd='bash check.sh %s thorough' % i, technique='static analysis: gated value-flow (dataflow) summaries over rustc MIR, guard entailment', level='other', level_note=note) for i in ids],
         not_applicable=[dict(property=i, reason=v[3]) for i, v in NA.items()])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
for i in T:
    assert len(T[i]['title']) <= 80, i
    if len(re.findall(r'\.(?:\s|$)', T[i]['statement'])) > 3: print('long', i)
print(len(ids), 'claimed', [i for i in T if i not in ids])
