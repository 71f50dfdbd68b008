#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        observe_at=observe or [],hook_needed=hook)))
GC="contracts/enterprise-governance-controller/src/contract.rs"
GV="contracts/enterprise-governance-controller/src/validate.rs"
PE="packages/poll-engine/src/"
NOCT="The repository's tests are poll-engine unit and doc tests on hand-picked polls; no test runs the contracts together, so no "

p("C01","Vote tallies equal the latest vote of every voter",
 "At every moment the four vote totals reported for a proposal equal the sum, over its voters, of each voter's single current vote; voting again replaces the earlier vote completely, whatever option it was on. A vote counts with the weight the voter has in the body that decides that proposal: membership weight for general proposals (followed as it changes while voting is open), council weight for council proposals. Votes are accepted only from members with weight, only while voting is open (from creation up to, but not including, the end time) and only before the proposal is executed, and a refused vote changes nothing.",
 ["histories","inputs"],"all sequences of votes, re-votes, weight changes and executions by any number of members on any number of concurrent proposals, at any block times including the exact boundaries",
 NOCT+"sequence of votes mixed with stakes, unstakes and concurrent proposals is ever executed.",
 [PE+"execute.rs",PE+"state.rs","contracts/enterprise-governance/src/contract.rs",GC],
 [("tally update on cast",PE+"execute.rs cast_vote"),("vote weight lookup",GC+" cast_vote / cast_council_vote"),("weight change fan-out","contracts/enterprise-governance/src/contract.rs update_votes")],
 [("poll results","per-option totals","poll-engine POLLS"),("votes","one vote per voter and poll","poll-engine VOTES")],
 ["governance Poll / PollVoter / PollVoters / Voter queries","controller Proposal, MemberVote, ProposalVotes queries"])

p("C02","Proposal outcomes follow the quorum, threshold and veto rules exactly",
 "When a proposal is decided it passes if and only if total votes cast (abstentions included) reach the quorum share of the total available weight, the veto option does not reach its threshold, and yes reaches the threshold share of non-abstaining votes with strictly more weight than no whenever no reaches it too. Otherwise it is rejected, and the rejection is classified as quorum missed, vetoed, rejected, drawn or threshold missed accordingly; ratios exactly equal to a limit count as reached, and a missing veto threshold means the ordinary threshold applies to veto. The limits used are the ones in force when the proposal was created (the council's own quorum and threshold for council proposals), and the available weight is the total at the proposal's end time, or the current total if it is decided before that.",
 ["inputs","histories"],"all vote distributions, quorum/threshold/veto-threshold values, total weights (including exact-ratio boundaries) and histories of weight and configuration changes before and after the end time",
 NOCT+"distribution near the exact boundary or history in which total weight or configuration moves after the poll is explored.",
 [PE+"state.rs",PE+"execute.rs",PE+"validate.rs",GC,"packages/membership-common/src/total_weight.rs"],
 [("final outcome",PE+"state.rs final_status / most_voted_over_threshold"),("available weight at end time",GC+" end_proposal / total_available_votes")],
 [("poll quorum/threshold/veto","limits fixed at creation","poll-engine POLLS")],
 ["stored poll status after execution","proposal status query","deposit destination and actions executed"])

p("C03","A proposal is executed at most once and only when it may be",
 "Every proposal is settled at most once: after the first successful execution request all further ones fail and change nothing. A request succeeds only when voting has ended, or earlier when early execution is enabled (always for council proposals, per configuration for general ones) and quorum is reached and yes, no or veto has reached its threshold. When, in a non-multisig DAO with early execution enabled, a vote on a general proposal changes what its outcome would be, it cannot be executed before one tenth of the voting period has passed since that vote, or its end time if sooner.",
 ["histories","schedules"],"all interleavings of votes, re-votes, weight changes, configuration changes and execution attempts by any account at any block time, including re-entrant attempts made from inside executing proposals",
 NOCT+"execution attempt, early-execution delay or double execution is tried through the controller.",
 [GC,PE+"validate.rs",PE+"execute.rs","contracts/enterprise-governance-controller/src/proposals.rs","contracts/enterprise-governance-controller/src/state.rs"],
 [("executed marker","contracts/enterprise-governance-controller/src/proposals.rs set_proposal_executed"),("early ending rule",PE+"validate.rs validate_can_end_early"),("delay after outcome change",GC+" reply CAST_VOTE")],
 [("executed_at","block of execution","ProposalInfo"),("earliest_execution","delay bound","ProposalInfo")],
 ["ExecuteProposal results","dispatched messages in the transaction trace"])

p("C04","Passed proposals perform exactly their actions, all or nothing, in order",
 "Executing a passed proposal performs each of its listed actions exactly once, in the listed order and with the listed contents, on the DAO's own contracts. If any action fails, none of the proposal's actions have any effect, yet the proposal still counts as executed and its deposit is still settled. A proposal that did not pass performs no action at all.",
 ["inputs","fault_sequences","histories"],"all lists of up to ten actions of every kind, with a failure injected at any action or nested message, for passed and rejected, general and council proposals",
 NOCT+"proposal with actions is ever executed, let alone with a failing action in the middle.",
 [GC,"contracts/enterprise/src/contract.rs","contracts/enterprise-treasury/src/contract.rs"],
 [("atomic self-call with always-reply",GC+" resolve_ended_proposal / execute_proposal_actions"),("action translation",GC+" execute_proposal_actions_submsgs")],
 [("proposal_actions","actions stored with the proposal","ProposalInfo")],
 ["messages dispatched in the execution transaction","state of all DAO contracts before and after"])

p("C05","Proposal deposits are held and settled exactly once to the right party",
 "The deposit stored with a proposal is exactly what was handed over in the DAO's own asset (coins, tokens or NFTs), and it stays with the DAO until the proposal is settled. Settling sends the whole deposit exactly once: to the treasury if a general proposal missed quorum or was vetoed, otherwise to the named deposit owner (the proposer if none was named). A deposit in any asset other than the DAO's own is never credited, and a proposal that could not be created leaves the funds with their owner.",
 ["histories","inputs"],"all histories of proposals with deposits of every kind (coin, token, NFTs), deposit owners, outcomes and failing actions, for several concurrent proposals",
 NOCT+"deposit is ever made.",
 [GC,"packages/enterprise-governance-controller-api/src/api.rs"],
 [("deposit capture",GC+" determine_deposit_and_create_proposal / receive_cw20 / create_proposal_with_nft_deposit"),("settlement",GC+" resolve_ended_proposal")],
 [("proposal_deposit","asset, amount and depositor","ProposalInfo")],
 ["bank, token and NFT balances of controller, treasury and depositor"])

p("C06","Only eligible proposers can open proposals, and only with valid contents",
 "A general proposal is accepted exactly when the proposer has voting weight, or, in DAOs that require a minimum deposit, when at least that deposit is supplied (weight then does not matter), and its actions pass validation. Rejected contents are: more than ten actions, messages that are not valid chain messages, contradictory or repeated whitelist edits, repeated or invalid council members, out-of-range or zero voting parameters, upgrades to a version that is not newer, membership edits outside multisig DAOs or with repeats, and multi-token (1155) assets in spending or distribution. Accepted proposals get consecutive ids and are stored with the given title, description, actions and proposer, opening at the current time for the configured voting period.",
 ["inputs","configurations"],"all proposal messages, proposers, deposits and DAO configurations",
 NOCT+"proposal creation path is tested.",
 [GC,GV],
 [("eligibility",GC+" assert_sufficient_deposit_or_member"),("content validation",GV+" validate_proposal_actions")],
 [("ProposalInfo","actions, type, deposit","controller")],
 ["CreateProposal results","Proposal query"])

p("C07","The council can only do what the DAO allows it to",
 "Only current council members can open or vote on council proposals, each with the weight one, and a DAO without a council accepts none; council members cannot vote on general proposals through the council nor ordinary members on council ones. A council proposal may only contain action kinds the DAO has allowed its council, which can never include changing governance rules or the council, spending or distributing funds, running arbitrary messages, editing multisig membership or the reward minimum; unless configured otherwise only upgrades are allowed. Council membership and powers change only through an executed council update, which replaces the members with exactly the given list.",
 ["inputs","configurations","histories"],"all council configurations, proposal contents, callers and histories of council replacements",
 NOCT+"council is ever configured.",
 [GC,GV,"packages/multisig-membership-impl/src/execute.rs"],
 [("allowed action check",GC+" create_council_proposal"),("forbidden kinds",GV+" validate_dao_council / validate_allowed_council_proposal_types"),("member replacement","packages/multisig-membership-impl/src/execute.rs set_members")],
 [("council config","members, allowed kinds, quorum, threshold","COUNCIL_GOV_CONFIG")],
 ["CreateCouncilProposal / CastCouncilVote results","council membership queries"])

p("C08","Privileged operations are refused to everyone but their owner",
 "Every operation reserved to a DAO's governance, to a contract itself, to a contract's creator during set-up, or to a configured administrator or token contract fails for every other caller and changes nothing. This holds across all contracts: the DAO record, voting engine, controller callbacks, treasury, reward distributor, all membership kinds, cross-chain outposts, NFT bridge callback, factory and version registry. It also holds for the governance of one DAO acting on the contracts of another.",
 ["inputs","configurations"],"all callers (members, outsiders, component contracts of the same DAO, governance of another DAO, the factory, token contracts) times all privileged messages of all contracts in all DAO kinds, at any point of a DAO's life",
 NOCT+"caller matrix exists for any contract.",
 ["contracts/enterprise/src/contract.rs","contracts/enterprise-treasury/src/contract.rs","contracts/funds-distributor/src","packages/membership-common/src/validate.rs","contracts/enterprise-outposts/src/contract.rs","contracts/enterprise-factory/src/contract.rs","contracts/enterprise-versioning/src/contract.rs",GC],
 [("sender checks","every execute handler"),("controller-only check","packages/membership-common/src/validate.rs enterprise_governance_controller_only")],
 [("admin / creator / component addresses","who may call","each contract")],
 ["result of each call","full state digest before and after"])

p("C09","Staked assets are always fully backed and tracked to their owner",
 "The staking contract of a token, coin or NFT DAO always holds exactly the sum of all members' stakes plus all outstanding withdrawal claims (plus anything sent to it outside of staking), and the reported stake of each member equals what was staked for them minus what they unstaked. Only the DAO's own asset can be staked, amounts handed over equal amounts credited, and nobody can unstake more than, or tokens other than, their own stake. A refused operation changes no stake and moves no asset.",
 ["histories","inputs"],"all histories of stakes (own and on behalf), bulk stakes, unstakes, claims and stray transfers by any members, in token, coin and NFT DAOs",
 NOCT+"staking contract has any test.",
 ["packages/token-staking-impl/src/execute.rs","packages/denom-staking-impl/src/execute.rs","packages/nft-staking-impl/src/execute.rs","packages/membership-common/src/member_weights.rs"],
 [("stake/unstake bookkeeping","*-staking-impl/src/execute.rs"),("NFT stake registry","packages/nft-staking-impl/src/nft_staking.rs")],
 [("member weights","stake per member","MEMBER_WEIGHTS"),("claims","outstanding withdrawals","*_CLAIMS")],
 ["asset balances / NFT ownership of the staking contract","UserWeight, UserStake, StakedNfts, Claims queries"])

p("C10","Unstaked assets are released exactly once, to their owner, after unlocking",
 "Unstaking creates a claim for exactly the unstaked assets which becomes releasable exactly one unlocking period (as configured at that moment, in time or blocks) later; later configuration changes do not affect it. Claiming pays the caller all and only their releasable claims, exactly once, leaves all other claims untouched, and nobody can claim for someone else. Claims listed for a user are exactly those created and not yet paid.",
 ["histories","schedules"],"all histories of unstakes, pre-funded claims, unlocking period changes and claim attempts at any block height and time including the exact release boundary",
 NOCT+"claim is ever created or released.",
 ["packages/token-staking-impl/src/claims.rs","packages/denom-staking-impl/src/claims.rs","packages/nft-staking-impl/src/claims.rs","packages/token-staking-impl/src/execute.rs"],
 [("release time","calculate_release_at"),("release test","is_releasable / get_releasable_claims"),("single payment","claim()")],
 [("claims","id, user, amount, release","*_CLAIMS")],
 ["Claims / ReleasableClaims queries","balances before and after"])

p("C11","Membership weights, totals and their history are consistent",
 "At every moment the total membership weight equals the sum of all members' weights, for every membership kind and for the council. The total reported for any past block height or time (to the second) equals the total that was in force when that block or second began, and no later change alters it; this includes the totals handed over as history when a membership contract is created. A multisig update sets exactly the named members to the given weights and rejects lists with repeats.",
 ["histories"],"all histories of weight changes at arbitrary heights and times, several per block or second, queried for every earlier moment",
 NOCT+"snapshot or membership test exists.",
 ["packages/membership-common/src/total_weight.rs","packages/membership-common/src/member_weights.rs","packages/multisig-membership-impl/src/execute.rs"],
 [("snapshots","packages/membership-common/src/total_weight.rs save_total_weight"),("weights","packages/membership-common/src/member_weights.rs")],
 [("total weight snapshots","by height and by second","TOTAL_WEIGHT_*_SNAPSHOT")],
 ["UserWeight, TotalWeight (now, at height, at time), Members queries"])

p("C12","Weight changes reach open votes and reward weights in the same transaction",
 "Whenever a member's weight changes (stake, bulk stake, unstake, multisig edit or replacement), by the end of that transaction every vote of theirs on a general proposal still open for voting carries the new weight, and rewards distributed afterwards use the new weight. Votes on proposals whose voting has ended or that were executed, other members' votes, and rewards already accrued do not change. Every contract on the list of those to be told of weight changes, and nobody else, is told of each change in that transaction. If the change cannot be propagated, the weight change itself does not happen.",
 ["histories","fault_sequences"],"all histories of weight changes interleaved with votes and distributions, with failures injected into the propagation",
 NOCT+"test exercises the propagation between contracts.",
 ["packages/membership-common/src/weight_change_hooks.rs",GC,"contracts/enterprise-governance/src/contract.rs","contracts/funds-distributor/src/user_weights.rs"],
 [("hook","packages/membership-common/src/weight_change_hooks.rs report_weight_change_submsgs"),("fan-out",GC+" weights_changed")],
 [("votes","amount per voter","poll-engine VOTES"),("reward weights","per user","USER_WEIGHTS")],
 ["MemberVote queries","UserRewards after later distributions"])

p("C13","Rewards are split by weight, conserved and paid exactly once",
 "Each distribution gives every eligible member its weight's share of the distributed amount, at the weights in force at that moment, rounded down by at most a negligible remainder; joining, leaving or changing weight later changes nothing about it. A member's reported rewards equal everything accrued minus everything claimed; claiming pays the caller exactly the reported rewards of the named assets and reduces them to zero. The distributor always holds at least what it owes in every asset, and a distribution with no eligible weight is refused.",
 ["histories","inputs"],"all histories of distributions (several coins and tokens, any amounts), weight changes, eligibility changes and claims",
 NOCT+"distributor test exists.",
 ["contracts/funds-distributor/src/distributing.rs","contracts/funds-distributor/src/rewards.rs","contracts/funds-distributor/src/claim.rs","contracts/funds-distributor/src/user_weights.rs","contracts/funds-distributor/src/native_distributions.rs","contracts/funds-distributor/src/cw20_distributions.rs"],
 [("per-weight index","contracts/funds-distributor/src/distributing.rs"),("accrual on weight change","contracts/funds-distributor/src/user_weights.rs")],
 [("global and user indices","accrued per weight unit","NATIVE_/CW20_ maps")],
 ["UserRewards query","balances of distributor and members"])

p("C14","Members below the reward minimum earn nothing, from then on only",
 "A member shares in a distribution exactly when its weight at that moment is at least the minimum weight for rewards in force at that moment; members below it neither earn nor dilute others. Raising or lowering the minimum changes eligibility only for later distributions and never alters rewards already accrued.",
 ["histories","inputs"],"all histories of minimum changes, weight changes around the minimum, distributions and claims",
 NOCT+"eligibility test exists.",
 ["contracts/funds-distributor/src/eligibility.rs","contracts/funds-distributor/src/user_weights.rs"],
 [("re-evaluation of affected members","contracts/funds-distributor/src/eligibility.rs update_minimum_eligible_weight")],
 [("minimum eligible weight","threshold","MINIMUM_ELIGIBLE_WEIGHT"),("effective weights","weight or zero","EFFECTIVE_USER_WEIGHTS")],
 ["UserRewards after distributions","MinimumEligibleWeight query"])

p("C15","Asset and NFT whitelists are exact, and only whitelisted assets are distributed",
 "The treasury's asset and NFT whitelists contain exactly the entries added and not removed by governance, and listing them returns every entry once. A reward distribution is accepted if and only if every distributed asset is on the DAO's whitelist or the global one of the DAO's factory, however long the lists are; otherwise nothing is distributed.",
 ["inputs","histories"],"all sequences of whitelist edits (coins, tokens, multi-tokens, NFTs; adds of present and removals of absent entries), list sizes beyond one page, and distributions of any asset mix",
 NOCT+"whitelist test exists.",
 ["contracts/enterprise-treasury/src/asset_whitelist.rs","contracts/enterprise-treasury/src/contract.rs","contracts/funds-distributor/src/distributing.rs"],
 [("whitelist maps and paging","contracts/enterprise-treasury/src/asset_whitelist.rs"),("whitelist walk","contracts/funds-distributor/src/distributing.rs assert_assets_whitelisted")],
 [("whitelists","native, cw20, cw1155, nft","treasury storage")],
 ["AssetWhitelist / NftWhitelist queries","Distribute results"])

p("C16","Users who have not signed the DAO's attestation cannot participate but can exit",
 "In a DAO with an attestation, a user who has not signed it cannot create, vote on or execute proposals, have assets staked for them, or claim rewards; any such attempt fails and changes nothing. Once signed by the user themselves these become possible, and a DAO without attestation (or after removing it) restricts nobody. Unstaking and collecting unlocked stakes is never blocked by the attestation.",
 ["inputs","histories"],"all users, actions and histories of setting, replacing, signing and removing attestations",
 NOCT+"attestation test exists.",
 ["contracts/attestation/src/contract.rs","contracts/enterprise/src/contract.rs",GC,"packages/membership-common/src/validate.rs","contracts/funds-distributor/src/claim.rs"],
 [("restriction query","contracts/enterprise/src/contract.rs query_is_restricted_user"),("gates",GC+" unrestricted_users_only")],
 [("signatures","who signed","attestation contract")],
 ["results of every participation message by unsigned users"])

p("C17","Treasury assets leave only through executed proposals, in the listed amounts",
 "The treasury's holdings of any coin, token or NFT decrease only within the execution of a passed proposal, and then exactly by what its funding, distribution or treasury-message actions list, to the recipients they list. No other call by anyone moves treasury assets. Assets sent to the treasury by anyone stay there until then.",
 ["histories","inputs"],"all histories of calls by any account on any contract of the DAO, interleaved with proposals",
 NOCT+"treasury test exists.",
 ["contracts/enterprise-treasury/src/contract.rs",GC],
 [("admin-only spending","contracts/enterprise-treasury/src/contract.rs admin_only")],
 [("balances","coins, tokens, NFTs","bank / token contracts")],
 ["treasury balances before and after every transaction"])

p("C18","Upgrades only move a DAO forward, through every version in between",
 "A DAO's version changes only by an executed upgrade to a strictly newer registered version; during it the DAO's main contract passes the code of each registered version after the current one, up to the target, in ascending order exactly once, with the migration message given for that version (an empty one if none was given), and this release's migration moves the outposts, reward distributor, membership and council contracts to the codes registered for release 1.2.1. If any step is missing or fails, no component changes and the version stays as it was. Members, stakes, claims, votes, proposals, balances and configuration are the same before and after an upgrade, and after a single component is renewed in place.",
 ["histories","inputs","fault_sequences"],"all registries of versions, current and target versions, migration messages and failures in any component's migration",
 NOCT+"upgrade test exists.",
 ["contracts/enterprise/src/contract.rs",GV,"contracts/enterprise-versioning/src/contract.rs"],
 [("version walk","contracts/enterprise/src/contract.rs upgrade_dao"),("newer-only check",GV+" validate_upgrade_dao")],
 [("DAO version","current version","DAO_VERSION")],
 ["migrate messages in the trace","contract code ids","DaoInfo query"])

p("C19","The version registry is append-only, ordered and editable only by its admin",
 "Each version number is registered at most once, and only by the registry's administrator; editing replaces exactly the given fields of an existing version. Lookups return exactly what was registered or last edited, listings return every version once in ascending order, and the latest version is always the highest registered one, independent of registration order.",
 ["histories","inputs"],"all sequences of additions, edits, admin changes and lookups over arbitrary version numbers, by any caller",
 NOCT+"registry test exists.",
 ["contracts/enterprise-versioning/src/contract.rs"],
 [("add/edit","contracts/enterprise-versioning/src/contract.rs"),("ordering","version key (major, minor, patch)")],
 [("versions","version info by number","VERSIONS")],
 ["Version, Versions, LatestVersion, Admin queries"])

p("C20","A new DAO is fully wired and depends only on its own creation request",
 "A successful creation yields one complete DAO: every component knows the same DAO, recognises its governance as sole authority and runs the chosen version's code with the DAO itself as contract admin (the attestation contract has none), and the configuration, members, balances, whitelists and council are exactly those requested. The DAO is registered under the next id and is found, by its treasury's address, in the factory's listings. An invalid request (bad governance parameters, too short unlocking period, no members, no usable supply, unknown version) creates nothing, and earlier or failed creations never influence later ones.",
 ["inputs","configurations","histories"],"all creation requests over every membership kind (new or existing token, NFT, bridged NFT, coin, new or imported multisig), councils, attestations and versions, in any sequence with failing ones in between",
 NOCT+"factory test exists.",
 ["contracts/enterprise-factory/src/contract.rs","contracts/enterprise-factory/src/token_membership.rs","contracts/enterprise-factory/src/nft_membership.rs","contracts/enterprise-factory/src/multisig_membership.rs","contracts/enterprise-factory/src/denom_membership.rs","contracts/enterprise-factory/src/validate.rs","contracts/enterprise/src/contract.rs"],
 [("instantiation reply chain","contracts/enterprise-factory/src/contract.rs reply"),("finalisation","contracts/enterprise/src/contract.rs finalize_instantiation")],
 [("dao addresses","id to DAO","DAO_ADDRESSES"),("creation scratch state","in-flight DAO","DAO_BEING_CREATED")],
 ["component queries of the new DAO","contract admins and code ids","AllDaos query"])

p("C21","Cross-chain treasuries: one per chain, governance-driven, no forged replies",
 "For each remote chain a DAO has at most one messaging proxy and one treasury, registered only by the authentic reply to the DAO's own deployment request, each reply being honoured at most once. Instructions for a remote treasury are sent only on governance's order, over the route the order names, to exactly that chain's proxy, and carry exactly the ordered message. Any other caller, an unknown chain or request, and a repeated deployment are refused without effect.",
 ["histories","inputs","fault_sequences"],"all histories of deployments, remote orders, genuine, forged, repeated and out-of-order replies over several chains",
 NOCT+"outposts test exists (needs simulated IBC).",
 ["contracts/enterprise-outposts/src/contract.rs","contracts/enterprise-outposts/src/ibc_hooks.rs",GC],
 [("callback authentication","contracts/enterprise-outposts/src/contract.rs execute_msg_reply_callback"),("sender derivation","contracts/enterprise-outposts/src/ibc_hooks.rs derive_intermediate_sender")],
 [("proxies, treasuries, pending callbacks","per chain","outposts storage")],
 ["emitted IBC transfer and memo","CrossChainDeployments / CrossChainTreasuries queries"])

p("C22","The facade reports and routes exactly what the DAO's contracts say",
 "For every DAO the facade's answers (info, members, stakes, claims, proposals, votes, whitelists, treasury and configuration) agree with what the DAO's own contracts report. Every message the facade prepares for creating, voting on or executing proposals, staking, unstaking or claiming names the right contract, the user's exact parameters and the funds required, and has the same effect as calling that contract directly. Addressing the DAO by its treasury or by its main contract gives the same answers.",
 ["inputs","histories"],"all facade queries and adapters in all DAO kinds at any point of a DAO's life",
 NOCT+"facade test exists.",
 ["contracts/enterprise-facade/src","contracts/enterprise-facade-v2/src/facade_v2.rs","packages/enterprise-facade-common/src/facade.rs"],
 [("routing","contracts/enterprise-facade/src/facade.rs get_facade"),("query mapping","contracts/enterprise-facade-v2/src/facade_v2.rs")],
 [("facade addresses","v1/v2 implementations","facade storage")],
 ["facade query responses versus component queries","execution of adapter responses"])

p("C23","Bridged NFTs are staked only via the genuine bridge and for the right user",
 "When the NFT bridge notifies the callback contract of an arrived transfer carrying a stake request, every transferred NFT is staked in the named DAO's membership for the named user, or the notification fails as a whole. Notifications from any caller other than the configured bridge have no effect. A DAO on a not yet bridged collection accepts NFTs only from the contract the bridge later reports for that collection, and from then on only from it.",
 ["inputs","histories"],"all notification contents, callers and numbers of NFTs, before and after the collection is bridged",
 NOCT+"bridge test exists.",
 ["contracts/ics721-callback-proxy/src/contract.rs","packages/ics721-callback-proxy-impl/src/execute.rs","packages/nft-staking-impl/src/execute.rs"],
 [("caller check","packages/ics721-callback-proxy-impl/src/execute.rs"),("collection resolution","packages/nft-staking-impl/src/execute.rs receive_nft")],
 [("bridge address","configured proxy","callback proxy storage")],
 ["NFT ownership","stakes after the callback"])

p("C24","The reported proposal status tells what execution would do",
 "At any moment the status reported for a proposal is truthful: executed if it was settled; passed or rejected if voting is over, matching the outcome execution then produces; executable early exactly when an execution request right now would be accepted before the end; in progress otherwise. A settled proposal's recorded results never change afterwards, and the reported total available weight is the one its outcome is judged by.",
 ["histories","schedules"],"all proposals at all moments of all histories of votes, weight and configuration changes, each status compared with an actual execution attempt on a copy of the state",
 NOCT+"status query of the controller is tested.",
 [GC,PE+"query.rs",PE+"validate.rs"],
 [("status correction",GC+" fix_poll_status"),("simulation",PE+"query.rs query_simulate_end_poll_status")],
 [("poll status","stored status","poll-engine POLLS")],
 ["Proposal, Proposals and ProposalStatus queries versus trial execution"])

p("C25","Paged listings return every entry exactly once",
 "Walking any paged listing with any page size, continuing after the last entry received, yields every existing entry exactly once in a stable order and nothing else; a filtered listing does the same for the entries that match. This holds for members, staked NFTs, proposals, votes of a proposal or voter, whitelists, DAOs, versions and cross-chain deployments. Page sizes are capped but never zero unless asked for.",
 ["inputs","histories"],"all listings in all contracts, all page sizes and all collection sizes around and beyond the default and maximum page size",
 NOCT+"listing is walked by any test.",
 ["packages/poll-engine/src/query.rs",GC,"packages/multisig-membership-impl/src/query.rs","packages/nft-staking-impl/src/query.rs","contracts/enterprise-treasury/src/asset_whitelist.rs","contracts/enterprise-factory/src/contract.rs","contracts/enterprise-versioning/src/contract.rs","contracts/enterprise-outposts/src/contract.rs"],
 [("exclusive start bound and limit","each query function")],
 [],["all paged queries"])

p("C26","Governance configuration changes are exact, validated and not retroactive",
 "An executed configuration update changes exactly the parameters it names, and the resulting configuration is always valid: voting period above zero, quorum, threshold and veto threshold within (0,1], no minimum deposit in a multisig DAO, and an unlocking period set by the update never shorter than the voting period. Proposals opened before the update keep the end time, quorum and thresholds they were opened with. Metadata, attestation and council updates, and updates of the DAO's factory and version registry addresses, likewise change exactly what they name.",
 ["histories","inputs"],"all sequences of configuration, metadata and council updates interleaved with proposals in all DAO kinds",
 NOCT+"configuration update test exists.",
 [GC,GV,"contracts/enterprise/src/contract.rs"],
 [("apply and validate",GV+" apply_gov_config_changes / validate_dao_gov_config"),("metadata","contracts/enterprise/src/contract.rs update_metadata")],
 [("governance config","current parameters","GOV_CONFIG")],
 ["GovConfig, DaoInfo, staking config queries"])

p("C27","DAOs of one factory are isolated from each other",
 "Whatever members, outsiders or the governance of one DAO do with their own DAO's contracts, no other DAO's configuration, members, stakes, claims, proposals, votes, rewards, treasury or version changes, even when both DAOs share the same token, coin, NFT collection or members.",
 ["histories"],"all interleavings of operations on several DAOs of the same and of different kinds sharing assets and members",
 NOCT+"two DAOs ever coexist in a test.",
 ["contracts/enterprise-factory/src/contract.rs","contracts/enterprise/src/contract.rs","packages/membership-common/src/enterprise_contract.rs"],
 [("per-DAO component addresses","contracts/enterprise/src/contract.rs COMPONENT_CONTRACTS")],
 [("state of all other DAOs","digest","all contracts")],
 ["state digest and balances of every other DAO after every transaction"])

p("C28","First-release stakes and claims move to the membership contract exactly once",
 "A treasury carried over from the first release still holds its members' token or NFT stakes and pending claims. Migration steps, called by anyone with any step size, move each of them to the DAO's membership contract exactly once, with the same owner, amount or NFTs and release time, together with the assets; a step that fails changes nothing, every other step makes progress, and migration counts as complete only when nothing is left. Meanwhile the treasury keeps reporting every member's former weight and the former totals, its own funds stay untouched, and steps are refused before migration started and after everything moved.",
 ["histories","inputs","crash_points"],"all sets of old stakes and claims (none, few, hundreds; past, future, equal releases; several per user), all sequences of step sizes, interleaved with staking, unstaking and claiming in the membership contract, and a failure at any nested message",
 NOCT+"migration test exists.",
 ["contracts/enterprise-treasury/src/migration.rs","contracts/enterprise-treasury/src/contract.rs","packages/token-staking-impl/src/execute.rs","packages/nft-staking-impl/src/execute.rs"],
 [("step","contracts/enterprise-treasury/src/migration.rs perform_next_migration_step"),("receipt","packages/token-staking-impl/src/execute.rs add_stakes / add_token_claims")],
 [("old stakes and claims","not yet moved","treasury storage stakes, nft_stakes, claims"),("stage","progress","migration_stage")],
 ["PerformNextMigrationStep results","UserWeight, TotalWeight, HasUnmovedStakesOrClaims, HasIncompleteV2Migration","membership queries and asset owners"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
