#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "observe_at": list(observe), "hook_needed": hook}})
CORE="contracts/dao-dao-core/src/contract.rs"
SING="contracts/proposal/dao-proposal-single/src/"
MULT="contracts/proposal/dao-proposal-multiple/src/"
COND="contracts/proposal/dao-proposal-condorcet/src/"
VOT="packages/dao-voting/src/"
PPB="packages/dao-pre-propose-base/src/"
APS="contracts/pre-propose/dao-pre-propose-approval-single/src/"
APR="contracts/pre-propose/dao-pre-propose-approver/src/"
V="contracts/voting/"
ST="contracts/staking/"
RD="contracts/distribution/dao-rewards-distributor/src/"
FD="contracts/distribution/cw-fund-distributor/src/"
EX="contracts/external/"
H=["histories","inputs"]

p("C01","Only its governance and its admin can make a DAO act",
 "Messages are dispatched in a DAO's name only when the sender is a currently enabled proposal module, or is the DAO's current admin using the admin entry point; everyone else, including disabled modules, former admins and the voting module, is refused. The DAO's own settings, registries, modules and pause state change only through calls whose sender is the DAO itself. A dispatched message list takes effect in order and as a whole: if one message fails the DAO's state and balances are as before.",
 H,"every sender, every sequence of module enable/disable, admin change and dispatch, every message list including failing ones",
 "tests try one unauthorised sender per entry point in the initial configuration; they do not interleave module/admin changes with dispatch",
 [CORE],[("execute_proposal_hook / execute_admin_msgs / self checks",CORE)],
 [("PROPOSAL_MODULES, ADMIN","who may act","contracts/dao-dao-core/src/state.rs")],["ExecuteProposalHook","ExecuteAdminMsgs","balances of the DAO","Admin, ProposalModules queries"])
p("C02","DAO pause and admin hand-over follow their protocol exactly",
 "While a DAO is paused nobody but the DAO itself and its admin can execute anything on it, the pause ends exactly when the requested duration elapses or the admin unpauses, and only the DAO itself can start it. The admin changes only when a pending nominee accepts; at most one nomination is pending, only the admin can nominate or withdraw a nomination, only the nominee can accept, and removing the admin makes the DAO its own admin at once.",
 H,"every interleaving of pause, unpause, nominate, withdraw, accept and other calls from every sender, with the clock at, before and after the boundary",
 "tests run one linear scenario per transition with a fixed clock",
 [CORE],[("pause check at the top of execute, nomination state machine",CORE)],[("PAUSED, ADMIN, NOMINATED_ADMIN","","contracts/dao-dao-core/src/state.rs")],["PauseInfo","Admin","AdminNomination"])
p("C03","A DAO keeps at least one live proposal module and stable module identity",
 "A DAO always has at least one enabled proposal module after any successful update, the reported totals equal the modules listed with each status, and the active listing is exactly the enabled ones. Every module keeps for life the unique prefix given when it was added (A, B, …, Z, AA, … in order of addition), only existing enabled modules can be disabled, an update is all-or-nothing, and replacing the voting module redirects all voting-power answers of the DAO to the new module at once.",
 H,"every sequence of module additions and removals, in one update or several, including repeats, unknown addresses and attempts to disable everything",
 "tests add and remove a handful of modules in fixed order",
 [CORE],[("execute_update_proposal_modules, reply module registration",CORE)],[("PROPOSAL_MODULES, ACTIVE_PROPOSAL_MODULE_COUNT, TOTAL_PROPOSAL_MODULE_COUNT","","contracts/dao-dao-core/src/state.rs")],["ProposalModules","ActiveProposalModules","ProposalModuleCount","VotingModule","VotingPowerAtHeight","TotalPowerAtHeight"])
p("C04","DAO registries behave as finite maps and page without loss",
 "Items, sub-DAOs and the cw20/cw721 token lists of a DAO behave as keyed sets: a read returns the last value written and not since removed, additions and removals in one call take effect in the documented order, and tokens received by the DAO are listed automatically exactly when its configuration says so. Walking any listing page by page with any page size returns every entry exactly once in the documented order. Invalid requests change nothing.",
 H,"every history of additions and removals with overlapping keys, every page size and starting point",
 "tests check single additions and one page size",
 [CORE,"packages/cw-paginate-storage/src/lib.rs"],[("item/subdao/token list updates, receive handlers, paginate helpers",CORE)],[("ITEMS, SUBDAO_LIST, CW20_LIST, CW721_LIST","","contracts/dao-dao-core/src/state.rs")],["ListItems","GetItem","ListSubDaos","Cw20TokenList","Cw721TokenList","Cw20Balances","Config"])
p("C05","A single-choice proposal passes exactly when its threshold is met",
 "At expiration a single-choice proposal is passed if and only if its quorum and threshold, evaluated with exact arithmetic on the final yes, no and abstain power and the total power when it was proposed, are met, and otherwise it is rejected; a quorum of X% is met at exactly X%, a majority needs strictly more than half of the non-abstaining power, and a P% threshold is met at exactly P% of it (of all power for absolute kinds). Abstentions count towards quorum only, proposals with only abstentions or without votes fail, shares being compared with a precision of one billionth of a vote, and arbitrarily large power never causes an overflow or a wrong outcome.",
 ["inputs","histories","configurations"],"every threshold kind and percentage, every distribution of power up to 2^128-1 at boundaries, and every vote",
 "unit tests sample a table of votes and small totals; boundaries for each percentage and total are not enumerable by hand",
 [SING+"proposal.rs",VOT+"voting.rs",VOT+"threshold.rs"],[("is_passed / is_rejected / compare_vote_count / does_vote_count_pass",SING+"proposal.rs")],[],["Proposal query status"])
p("C06","Early decisions are final: votes still to come cannot reverse them",
 "Before expiration a single-choice proposal is shown as passed or rejected only if no sequence of further ballots by members who can still vote (or, when revoting is allowed, change their vote) could make the outcome at expiration different; with revoting it therefore stays open until expiration. A proposal is never shown as passed before its minimum voting period is over, and once the outcome is decided it never flips.",
 H+["configurations"],"every partial tally and every completion of it, every threshold kind, revoting on and off, minimum voting period on and off",
 "needs quantification over all completions of a partial vote; tests check chosen tallies",
 [SING+"proposal.rs",VOT+"voting.rs"],[("is_passed/is_rejected early branches, min_voting_period",SING+"proposal.rs")],[],["Proposal status before expiration"])
p("C07","Single-choice ballots count once, with power frozen at the proposal's start",
 "The tally of a single-choice proposal always equals the sum, over the addresses whose ballot is on record, of the voting power each had when the proposal was created, and the total is the total power at that same moment; later changes of power do not matter. An address without power then, or voting after expiration, or voting again without revoting allowed or with the same vote, is refused and nothing changes; a permitted revote moves exactly its own power. The listing of ballots pages through every ballot exactly once and a rationale can be changed only by its voter.",
 H,"every interleaving of power changes, proposals, votes, revotes and expirations, including in the same block",
 "tests use static membership and few voters",
 [SING+"contract.rs",SING+"proposal.rs",VOT+"voting.rs"],[("execute_vote, get_voting_power at start_height",SING+"contract.rs")],[("BALLOTS, Proposal.votes","","contracts/proposal/dao-proposal-single/src/state.rs")],["Vote","GetVote","ListVotes","Proposal"])
p("C08","A passed proposal executes at most once and failed ones never",
 "A proposal of the single-choice module moves only along open → passed/rejected/timelocked → executed, failed, closed or vetoed; its messages take effect at most once, only while it is passed, only by someone allowed to execute, in order and all-or-nothing. If they fail it stays passed and retryable or becomes permanently failed according to the current configuration; only rejected proposals can be closed; finished proposals never change again, ids are 1,2,3,… without gaps, and listings return every proposal once in order.",
 H,"every history of propose, vote, execute, close, veto, with failing messages, closed configuration changes and members joining and leaving",
 "tests check one path at a time",
 [SING+"contract.rs",SING+"proposal.rs"],[("execute_execute, reply, execute_close, next_proposal_id",SING+"contract.rs")],[("PROPOSALS, PROPOSAL_COUNT","","contracts/proposal/dao-proposal-single/src/state.rs")],["Execute","Close","Proposal","ListProposals","ReverseProposals","ProposalCount","NextProposalId","effects of the messages"])
p("C09","Veto and timelock: only the vetoer, only in its window",
 "A passed proposal that was created with a veto configuration cannot be executed by anyone but the vetoer until the whole timelock, counted from the end of its voting period, is over, and during it only the vetoer may veto it or, if early execution was granted, execute it. Before passing it can be vetoed only by the vetoer and only if that was granted; a vetoed proposal is never executed, and without veto configuration or for any other sender a veto is always refused. This holds alike for single- and multiple-choice proposals.",
 H+["configurations"],"every veto configuration, every sender, every action at every moment relative to expiration and timelock end",
 "tests check individual cells of the table (state × sender × flag × time)",
 [SING+"contract.rs",MULT+"contract.rs",VOT+"veto.rs"],[("execute_veto, check_early_execute_enabled, VetoTimelock handling",SING+"contract.rs")],[],["Veto","Execute","Proposal status"])
p("C10","Settings changes never reach proposals already under way",
 "The threshold, voting periods, revoting rule, veto terms, choices and messages of a proposal are those in force when it was created and never change afterwards, whatever the DAO configures later; new proposals use the new settings. Module settings, the proposal-creation policy and hooks change only at the DAO's own request, and invalid settings (thresholds out of range, a minimum period above the maximum or in other units, a timelock in other units than the voting period, an invalid vetoer) are refused as a whole.",
 H+["configurations"],"every configuration update at every point of every proposal's life, for single- and multiple-choice modules",
 "tests update configuration in a single place and look at one proposal",
 [SING+"contract.rs",MULT+"contract.rs",VOT+"threshold.rs",VOT+"veto.rs"],[("proposal snapshot in execute_propose, execute_update_config",SING+"contract.rs")],[],["Config","Proposal","UpdateConfig","ProposalCreationPolicy"])
p("C11","A multiple-choice proposal passes only for a unique winner with quorum",
 "A multiple-choice proposal is passed with option X exactly when quorum is met (at exactly X% it is), X has strictly more power than every other option and X is not the none-of-the-above option; ties, missing quorum or a none-of-the-above win reject it. It is decided before expiration only when the remaining power could not change the outcome, and never before its minimum voting period is over or while votes may still be changed.",
 H+["inputs","configurations"],"every number of options 2..20, every distribution of power, every order of votes, every quorum",
 "tests sample few tallies; early decision needs all completions",
 [MULT+"proposal.rs",VOT+"multiple_choice.rs"],[("calculate_vote_result / is_choice_unbeatable",MULT+"proposal.rs")],[],["Proposal","status","Execute effects of the winning option only"])
p("C12","Multiple-choice ballots and lifecycle are sound",
 "In the multiple-choice module each address counts at most once, for one existing option, with its power when the proposal was created; tallies always equal the sum of recorded ballots; expired, powerless, duplicate or out-of-range votes are refused. Only the winning option's messages ever take effect, at most once and all-or-nothing; finished proposals never change and ids and listings are gapless and complete.",
 H,"every interleaving of power changes, proposals, votes, revotes, execution and closing",
 "as for the single-choice module",
 [MULT+"contract.rs",MULT+"proposal.rs",VOT+"multiple_choice.rs"],[("execute_vote, execute_execute, reply",MULT+"contract.rs")],[],["Vote","GetVote","ListVotes","ListProposals","Execute"])
p("C13","A ranked-choice proposal elects the Condorcet winner or nothing",
 "A ranked-choice proposal passes with an option exactly when quorum is met and that option beats every other option, none-of-the-above included, in pairwise comparison of the ballots; it passes early only when no remaining ballots could change this. Each member ranks all options once with its power at creation, only members propose and execute, execution happens at most once for the winner only, and proposals without a winner can only be closed.",
 H+["inputs"],"every number of options, every set of ballots and powers, every order of casting, expiration boundary",
 "tests sample few ballots; the pairwise matrix and its early-decision rule range over all permutations",
 [COND+"contract.rs",COND+"proposal.rs",COND+"tally.rs",COND+"m.rs"],[("Tally::add_vote/winner, Proposal::update_status",COND+"tally.rs")],[],["Proposal","Vote","Execute","Close"])
p("C14","Proposal deposits are taken exactly, refunded exactly once by policy",
 "Creating a proposal through a deposit-taking module takes exactly the configured deposit from the proposer, or the creation fails and nothing moves; when the proposal ends, exactly that deposit, as configured at creation, goes once to the proposer or to the DAO as the refund policy and outcome demand. At any moment the module holds exactly the deposits of unfinished proposals plus anything sent to it otherwise, and only the DAO can withdraw from it.",
 H+["configurations"],"every sequence of proposals, outcomes, deposit reconfigurations (kind, amount, token, policy) and withdrawals, for single, multiple and approval variants",
 "tests change one parameter at a time and follow one proposal",
 [PPB+"execute.rs",VOT+"deposit.rs",APS+"contract.rs","contracts/pre-propose/dao-pre-propose-single/src/contract.rs","contracts/pre-propose/dao-pre-propose-multiple/src/contract.rs"],[("deposit snapshot by proposal id, execute_proposal_completed_hook, CheckedDepositInfo",PPB+"execute.rs")],[("DEPOSITS","","packages/dao-pre-propose-base/src/state.rs")],["balances of proposer, DAO and module","DepositInfo","Config"])
p("C15","Only submitters allowed by the policy can create proposals",
 "When a proposal module is bound to a pre-propose module, proposals can be created only through it, in the name of the submitter, and only by addresses the current submission policy allows: never a denied address, and under a specific policy only allow-listed addresses or, if enabled, addresses with present voting power; the can-propose query always agrees. The policy changes only at the DAO's request, incrementally as asked, and never to one that contradicts itself or allows nobody.",
 H+["configurations"],"every sequence of policy updates (set, add, remove, overlapping), membership changes and submissions by any sender",
 "tests exercise single policy updates",
 [PPB+"execute.rs",VOT+"pre_propose.rs"],[("check_can_submit, execute_update_submission_policy, PreProposeSubmissionPolicy::validate",PPB+"execute.rs")],[],["CanPropose","Propose","Config"])
p("C16","Approval: nothing reaches the DAO without its approver",
 "With approval required, a submitted proposal becomes a real proposal only by the current approver's approval, at most once, unchanged, in the original proposer's name and with its deposit; a rejection ends it and returns or forfeits the deposit by policy. A proposal is always in exactly one of pending, approved or rejected and the queries list it once; when the approver is another DAO its own proposal's outcome decides and only that DAO's approver contract can.",
 H,"every order of submit, approve, reject, approver change and outcome, several in flight",
 "tests follow one proposal at a time",
 [APS+"contract.rs",APR+"contract.rs"],[("execute_approve / execute_reject, approver completion hook",APS+"contract.rs")],[("PENDING_PROPOSALS, COMPLETED_PROPOSALS","",APS+"state.rs")],["PendingProposals","CompletedProposals","CompletedProposalIdForCreatedProposalId","approver's proposals"])
p("C17","Hooks reach every registered listener and a bad one is isolated",
 "Every registered listener is notified once, in registration order, of each proposal creation, status change and vote (and of stake and membership changes by the voting modules), with the values the action determined; unregistered ones never are. In the proposal modules a listener that fails is dropped and neither blocks nor alters the user's action, other listeners stay; a failing pre-propose module is detached. Only the DAO (or owner) can add or remove listeners, never twice the same.",
 H+["fault_sequences"],"every set of healthy and failing listeners, additions and removals between actions",
 "tests register one listener and one failure",
 ["packages/dao-hooks/src/proposal.rs","packages/dao-hooks/src/vote.rs","packages/dao-hooks/src/stake.rs","packages/dao-hooks/src/nft_stake.rs","packages/cw-hooks/src/lib.rs",SING+"contract.rs",MULT+"contract.rs",V+"dao-voting-token-staked/src/contract.rs",V+"dao-voting-cw721-staked/src/contract.rs",V+"dao-voting-onft-staked/src/contract.rs",ST+"cw20-stake/src/contract.rs","contracts/external/cw721-roles/src/contract.rs"],[("prepare_hooks, reply masks, remove_hook_by_index","packages/cw-hooks/src/lib.rs")],[],["ProposalHooks","VoteHooks","notifications received by listeners","ProposalCreationPolicy"])
p("C18","Group-based voting power is the member weight as of the block",
 "With a membership group as the source of power, an address's power at a height is its group weight at that height and the total at a height is the sum of all members' weights at it; answers about past heights never change. Creation refuses duplicate, zero-weight-only or invalid member lists, and the group contract used is the one created for or given to the DAO.",
 H,"every history of membership updates, several in one block, and every queried height",
 "tests query a few heights",
 [V+"dao-voting-cw4/src/contract.rs"],[("query_voting_power_at_height forwarding",V+"dao-voting-cw4/src/contract.rs")],[],["VotingPowerAtHeight","TotalPowerAtHeight","GroupContract"])
p("C19","Staked fungible tokens: power is stake, at every height, fully backed",
 "With staked native or cw20 tokens as the source of power, an address's power at a height is what it had staked at the start of that block, the total is the sum over all stakers, and answers about past heights never change. Tokens held by the staking contract always equal total stake plus unclaimed unstaked tokens, nobody can unstake more than it has staked, and no other sender affects one's stake; stakers' listings are complete and registered listeners are told of every stake and unstake.",
 H+["inputs"],"every interleaving of stake, unstake, claim by several users in the same and different blocks, every amount, every queried height",
 "tests use one or two users and a couple of heights",
 [V+"dao-voting-token-staked/src/contract.rs",V+"dao-voting-cw20-staked/src/contract.rs",ST+"cw20-stake/src/contract.rs"],[("snapshot maps keyed by block, execute_stake/unstake",V+"dao-voting-token-staked/src/contract.rs")],[("STAKED_BALANCES, STAKED_TOTAL","","contracts/voting/dao-voting-token-staked/src/state.rs")],["VotingPowerAtHeight","TotalPowerAtHeight","ListStakers","bank/cw20 balances"])
p("C20","Staked NFTs: one vote each, owned by one staker, never lost",
 "With staked NFTs as the source of power, an address's power at a height is the number of NFTs it had staked at the start of that block and the total is their sum; each NFT held by the module is staked by or awaiting release to exactly one address, and only that address can take it out (save for the DAO's own power to return ONFTs from the module). Only NFTs of the configured collection, actually transferred in, count; past answers never change and listings of staked NFTs are complete.",
 H,"every interleaving of stake, unstake, claim, transfer and (for onft) prepare/confirm/cancel by several users, including repeated ids and foreign NFTs",
 "tests use few NFTs and users",
 [V+"dao-voting-cw721-staked/src/contract.rs",V+"dao-voting-onft-staked/src/contract.rs","packages/cw721-controllers/src/nft_claim.rs"],[("register_staked_nft / register_unstaked_nfts",V+"dao-voting-cw721-staked/src/state.rs")],[("STAKED_NFTS_PER_OWNER, NFT_BALANCES, TOTAL_STAKED_NFTS","",V+"dao-voting-cw721-staked/src/state.rs")],["VotingPowerAtHeight","StakedNfts","NftClaims","OwnerOf"])
p("C21","Unstaked assets are released once, to their owner, never early",
 "Unstaking with an unbonding period creates claims of exactly the unstaked amount or NFTs; a claim can be redeemed only by its owner, only once, and not before the unbonding period in force at unstaking has fully elapsed — at which moment it can. Without an unbonding period the assets return at once. At no time can the number of outstanding claims of an address exceed its cap, and changing the period does not affect existing claims.",
 H+["configurations"],"every sequence of unstakes and claims across duration changes, for height- and time-based durations, at, before and after the boundary, in all staking contracts",
 "tests check one duration and one claim",
 [ST+"cw20-stake/src/contract.rs",V+"dao-voting-token-staked/src/contract.rs",V+"dao-voting-cw721-staked/src/contract.rs",V+"dao-voting-onft-staked/src/contract.rs","packages/cw721-controllers/src/nft_claim.rs"],[("Claims / NftClaims, MAX_CLAIMS","packages/cw721-controllers/src/nft_claim.rs")],[],["Claims","NftClaims","Claim effects on balances"])
p("C22","A DAO with an active threshold is active exactly when it is met",
 "A voting module with an active threshold reports active exactly when the staked amount reaches the configured absolute count or the configured percentage of total supply, rounded against activity, and always when none is set; while it is inactive no proposal can be created. The threshold changes only at the DAO's request and never to an invalid value (zero, over 100%, or more than the supply; a token factory answers for its own creations).",
 H+["inputs","configurations"],"every threshold, supply and stake including one unit either side of the boundary, across stake, unstake and supply changes",
 "tests sample a few values",
 [V+"dao-voting-token-staked/src/contract.rs",V+"dao-voting-cw20-staked/src/contract.rs",V+"dao-voting-cw721-staked/src/contract.rs",V+"dao-voting-onft-staked/src/contract.rs"],[("query_is_active, execute_update_active_threshold",V+"dao-voting-token-staked/src/contract.rs")],[],["IsActive","ActiveThreshold","Propose"])
p("C23","cw20 staking shares conserve value",
 "In cw20 staking every staker's value is its share of the pooled tokens; staking, unstaking and claiming by others never lowers it (beyond rounding of one unit) and nobody can take out more than its shares' floor value, so the contract always holds enough to pay everybody. Tokens added as rewards raise all stakers' values proportionally; shares are minted and burned only by actual staking and unstaking.",
 H+["inputs"],"every interleaving of stake, fund, unstake and claim with every amount, including tiny stakes against huge pools",
 "rounding losses accumulate over histories that tests do not sample",
 [ST+"cw20-stake/src/contract.rs","packages/cw20-stake/src"][:1]+[ST+"cw20-stake/src/math.rs"],[("amount_to_stake / amount_to_claim",ST+"cw20-stake/src/math.rs")],[("BALANCE, STAKED_TOTAL, STAKED_BALANCES","",ST+"cw20-stake/src/state.rs")],["StakedValue","TotalValue","StakedBalanceAtHeight","cw20 balances"])
p("C24","Staking reward streams pay stakers pro rata and never more than funded",
 "The reward contracts attached to cw20 staking stream a funded reward linearly over its period to stakers in proportion to stake and time, up to rounding down, and the sum ever paid and still owed never exceeds what was funded; claiming twice pays nothing more and stake changes affect only later rewards. The periodic distributor releases exactly rate × blocks elapsed since its last release or reconfiguration, capped by its balance, to the pool, and only owners fund, configure or withdraw.",
 H+["inputs"],"every interleaving of funding, stake changes, claims, distributions and reconfigurations at every height",
 "tests follow one schedule",
 [ST+"cw20-stake-external-rewards/src/contract.rs",ST+"cw20-stake-reward-distributor/src/contract.rs"],[("update_rewards, get_reward_per_token; get_distribution_msg",ST+"cw20-stake-external-rewards/src/contract.rs")],[],["GetPendingRewards","Claim","Info","balances"])
p("C25","The rewards distributor never owes or pays more than it was funded",
 "For every reward distribution of a DAO whose source of voting power stays the same and reports every change, rewards already claimed plus everything currently claimable plus what the owner can still take back never exceed what was funded, so every pending reward can be claimed at any time in any order. A claim pays exactly the pending amount, once; the owner's withdrawal returns exactly the undistributed part and never touches earned rewards.",
 H+["inputs"],"every interleaving of create, fund, rate change, pause, withdraw, voting-power change and claim by several users, several distributions sharing a token, at every height/time",
 "tests follow fixed schedules with three stakers",
 [RD+"contract.rs",RD+"rewards.rs",RD+"state.rs",RD+"helpers.rs"],[("execute_fund/withdraw/claim, get_active_total_earned_puvp, Epoch",RD+"contract.rs")],[("DISTRIBUTIONS, USER_REWARDS","",RD+"state.rs")],["PendingRewards","Claim","Withdraw","Distribution","balances"])
p("C26","The rewards distributor accrues in proportion to power and time",
 "Linear rewards accrue per complete period since the distribution was last brought up to date, at the configured rate, shared by voting power at each moment, and immediate rewards are shared at funding by power at that block, all rounded down; changes of power, rate, pausing or end of funding affect only what accrues afterwards. Continuous distributions resume without retroactive gaps or double pay when funded again, and only the owner (or anyone if funding is open) can create, alter or fund them.",
 H+["inputs","configurations"],"every emission rate, period, power history and funding schedule with unaligned times",
 "tests fix the schedule; formulas interact across histories",
 [RD+"contract.rs",RD+"rewards.rs",RD+"state.rs",RD+"hooks.rs"],[("update_rewards, transition_epoch, hooks",RD+"rewards.rs")],[],["PendingRewards","Distribution","UndistributedRewards"])
p("C27","A fund distribution gives every holder its exact share, once",
 "After the funding period each member can claim of every token the share its voting power at the distribution height gives it (a fraction taken with 18 decimals, rounded down) of all that was funded, regardless of how and in how many steps it claims; total paid never exceeds the amount funded. Funding is possible only before and claiming only after the end of the funding period, and a redistribution hands out only what was not yet claimed.",
 H+["inputs"],"every set of powers, funding history and order of claims, repeated claims, later redistribution",
 "tests use two or three holders and one claim each",
 [FD+"contract.rs"],[("get_entitlement, execute_claim_*",FD+"contract.rs")],[],["claims' effect on balances","Entitlement queries"])
p("C28","Vesting pays the vested amount, never early and never twice",
 "A vesting payment never pays out more than the amount vested so far by its schedule, the vested amount never decreases and reaches the total at the end, and anyone can trigger payment of the due amount, which goes only to the recipient. Paid and remaining amounts always add up to the contract's funds, the contract is funded exactly once with exactly the agreed amount, and requests beyond the distributable amount are refused.",
 H+["inputs"],"every linear or piecewise schedule, every sequence of distributions at any time, amounts up to 2^127",
 "tests sample a couple of schedules and times",
 [EX+"cw-vesting/src/contract.rs",EX+"cw-vesting/src/vesting.rs"],[("Payment::distributable, Vest::vested",EX+"cw-vesting/src/vesting.rs")],[],["Info","Distributable","Vested","TotalToVest","balances"])
p("C29","Cancelling vesting splits the funds fairly and only by the owner",
 "Only the owner can cancel a vesting payment; at cancellation the recipient gets or keeps exactly what had vested, the owner gets exactly the rest, and later distributions and withdrawals, by whomever triggered, pay each side at most its part. A contract without owner can never be cancelled and ownership cannot be abandoned while cancelled funds are still owed to the owner.",
 H,"every time of cancellation relative to distributions, with and without staked funds, and every later order of distribution and withdrawal",
 "tests cancel at one or two points",
 [EX+"cw-vesting/src/contract.rs",EX+"cw-vesting/src/vesting.rs"],[("Payment::cancel, execute_withdraw_canceled_payment",EX+"cw-vesting/src/vesting.rs")],[],["Cancel","WithdrawCanceledPayment","Info","balances"])
p("C30","Vested funds stay accounted for while staked, unbonding and slashed",
 "While vesting funds are delegated, undelegated, redelegated or slashed, the amount known as staked, per validator and in total, at any time equals delegated plus still unbonding minus slashed; liquid plus staked plus paid plus slashed always equals the total, and distributions never count on staked or slashed funds. Only the recipient (or anyone, to undelegate after cancellation) can move stake and only the owner can register a slash; values of the past can be queried unchanged except by slashes registered for that time.",
 H,"every interleaving of delegate, undelegate, redelegate, slash registration at past times, cancel and distribute",
 "tests follow single delegations",
 [EX+"cw-vesting/src/vesting.rs","packages/cw-stake-tracker/src/lib.rs","packages/cw-wormhole/src/lib.rs"],[("StakeTracker, Wormhole",  "packages/cw-stake-tracker/src/lib.rs")],[],["Stake queries","Distributable","Delegate/Undelegate results"])
p("C31","Factories record and create exactly what was asked",
 "The payroll factory creates a vesting contract exactly for authorised requests paid in full with the asset that is to vest, funds it with exactly that amount, and lists every contract it made once under its instantiator and once under its recipient, in order, on any page walk; only its owner changes the code or ownership. The admin factory creates contracts that are their own admin, only for permitted senders, at the predicted address when one is demanded.",
 H,"every sequence of instantiations (native and cw20) by several senders with matching and mismatching funds, ownership changes, page sizes",
 "tests create a few contracts",
 [EX+"cw-payroll-factory/src/contract.rs",EX+"cw-admin-factory/src/contract.rs"],[("instantiate_contract, reply; execute_instantiate_*",EX+"cw-payroll-factory/src/contract.rs")],[],["List* queries","contract admin","balances"])
p("C32","A token swap is atomic: both sides or neither",
 "An escrowed swap pays out only when both counterparties have provided exactly their agreed asset, and then each receives exactly the other's asset in the same transaction; until then either can take back exactly what it provided, and afterwards nothing more moves. Strangers, wrong tokens, wrong amounts and double provision are always refused and change nothing.",
 H,"every order of fund, withdraw, re-fund attempts by every sender with every token and amount",
 "tests follow a few orders",
 [EX+"cw-token-swap/src/contract.rs"],[("do_fund, execute_withdraw",EX+"cw-token-swap/src/contract.rs")],[],["Status","balances"])
p("C33","Token issuer allowances, freezes and deny-lists are enforced",
 "Through the token issuer an address can mint or burn at most its remaining allowance, each use lowering it by exactly that amount, and only the owner changes allowances, ownership-restricted settings and force-moves tokens. While frozen, tokens move only from or to an allow-listed address, deny-listed addresses never can, and the issuer cannot deny-list itself; all status and allowance listings agree with the single queries.",
 H,"every interleaving of allowance, freeze, allow- and deny-list changes, mints, burns and attempted transfers",
 "tests check single steps",
 [EX+"cw-tokenfactory-issuer/src/execute.rs",EX+"cw-tokenfactory-issuer/src/hooks.rs"],[("mint/burn allowance accounting, beforesend_hook",EX+"cw-tokenfactory-issuer/src/execute.rs")],[],["MintAllowance(s)","BurnAllowance(s)","Denylist","Allowlist","IsFrozen","BlockBeforeSend"])
p("C34","Role NFTs: membership weight always matches the role tokens held",
 "With role NFTs, a member's weight equals the sum of the weights of the roles it holds and the total is the sum over all members, at every height, and both voting power and member listings agree; only the minter can mint, move, burn or change roles, and ownership of the roles moves only when the one it was offered to accepts. Membership listeners are told the true old and new weight on every change.",
 H,"every sequence of mint, weight/role/uri change, transfer and burn over several holders and tokens",
 "tests mint and burn a few tokens",
 [EX+"cw721-roles/src/contract.rs",V+"dao-voting-cw721-roles/src/contract.rs"],[("execute_mint/burn/update_token_weight/transfer",EX+"cw721-roles/src/contract.rs")],[],["Member","TotalWeight","ListMembers","VotingPowerAtHeight","hook messages"])
p("C35","Upgrades carry everything over and happen once",
 "Migrating a contract from the older version it supports (a v1 DAO core, proposal module, staking pool, reward stream or reward distributor; a pre-propose module of an earlier v2) keeps all it held: modules, items, token lists, configuration, proposals with every ballot, tally and term, stake at every past height, claims, pending rewards and rates, deposits and hooks read afterwards as they did before, and from there on the contract behaves exactly as a new one in that state would. Such a migration is refused where it would strand deposits, is made by the contract's admin alone and can never be repeated; a migration between compatible versions, of these or of a voting module or the rewards distributor, changes nothing, and is the admin's alone.",
 H,"every history on the old code before the upgrade, every moment of upgrading, every history on the new code after it",
 "tests migrate one hand-made state and look at a few queries; state missing because the old code never wrote it, or that is only read much later, goes unnoticed",
 [CORE,SING+"contract.rs",SING+"v1_state.rs",PPB+"execute.rs","contracts/voting/dao-voting-token-staked/src/contract.rs","contracts/voting/dao-voting-cw721-staked/src/contract.rs","contracts/voting/dao-voting-cw4/src/contract.rs",RD+"contract.rs",ST+"cw20-stake/src/contract.rs",ST+"cw20-stake-external-rewards/src/contract.rs",ST+"cw20-stake-reward-distributor/src/contract.rs"],
 [("migrate FromV1",CORE),("migrate FromV1",SING+"contract.rs"),("v1_*_to_v2",SING+"v1_state.rs"),("PreProposeContract::migrate",PPB+"execute.rs"),("migrate FromV1",ST+"cw20-stake/src/contract.rs"),("migrate FromV1",ST+"cw20-stake-external-rewards/src/contract.rs")],
 [],["every query of the migrated contract","wasm migrate outcome"])
p("C36","A DAO is founded completely or not at all",
 "Instantiating a DAO with its voting module either fails as a whole or leaves exactly what was asked: one voting module and the listed proposal modules, each initial holder or member with exactly its stated balance, weight or NFTs (and the DAO with its own share), the thresholds, durations and items given, and every token, issuer, fan token, staking contract, group or NFT collection created on the way administered, owned and mintable by the DAO and nobody else. A founding that could never work is refused: no members or holders outside the DAO, duplicate members, ids or items, invalid thresholds, counts above the supply or durations, more tokens than a maximal supply, a staking contract for another token, a factory that answers wrongly.",
 H,"every combination of how the token, collection or group is obtained (existing, made by code id, made by a factory), of holders, amounts, thresholds, durations, modules and callbacks, and what the first operations afterwards find",
 "tests instantiate one well-formed configuration per source",
 [CORE,V+"dao-voting-token-staked/src/contract.rs",V+"dao-voting-cw20-staked/src/contract.rs",V+"dao-voting-cw721-staked/src/contract.rs",V+"dao-voting-cw4/src/contract.rs",V+"dao-voting-cw721-roles/src/contract.rs",EX+"btsg-ft-factory/src/contract.rs",EX+"cw-tokenfactory-issuer/src/contract.rs"],
 [("instantiate, reply",V+"dao-voting-token-staked/src/contract.rs"),("instantiate, reply",V+"dao-voting-cw20-staked/src/contract.rs"),("instantiate, reply",V+"dao-voting-cw721-staked/src/contract.rs"),("instantiate, reply",V+"dao-voting-cw4/src/contract.rs"),("execute_issue, reply",EX+"btsg-ft-factory/src/contract.rs"),("instantiate, reply",CORE)],
 [],["DumpState","token and NFT balances, minters and admins","ActiveThreshold","chain denomination state"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,sch)
    for fn in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+fn): print("missing",x["id"],fn)
    for m in x["anchors"]["mechanism"]:
        if not os.path.exists("/repo/"+m["where"]): print("missing",x["id"],m["where"])
print(len(P))
