#!/usr/bin/env python3
# Generates properties.jsonl (kept here so that the text is reviewable in one place).
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
E="pkg/core/evaluator/"
p("C01","Calculations give the exact integer value, with the rounding that was written",
 "For every expression built from integers, + - * /, unary minus and parentheses, the calculated value is the mathematical one whenever all intermediate values fit in a 64-bit integer: plain division truncates towards zero, division marked U rounds up towards plus infinity, division marked R rounds half away from zero. Division by zero is reported as an error and never yields a value.",
 ["inputs"],"all expression trees of any depth and all 64-bit operands, positive and negative, including operands beyond 2^53",
 "Tests evaluate a few dozen small positive expressions; rounding of negative or large quotients and arbitrary nesting are an infinite space.",
 [E+"eval_infix_expression.go",E+"eval_prefix_expression.go",E+"evaluator.go","pkg/core/object/integer.go"],
 [("integer operators",E+"eval_infix_expression.go evalIntegerInfixExpression"),("division",E+"eval_infix_expression.go evalIntegerDivide"),("tree walk",E+"evaluator.go Eval"),("C(...) command","pkg/core/command/execute_calc.go")])
p("C02","A dice roll returns exactly the requested dice or an error",
 "Rolling N dice with S sides yields exactly N dice in the order they were supplied, every one with S sides and a value from 1 to S. If N or S is below 1, or the supply runs out or hands over a die of the wrong kind, the roll is an error and no dice are returned; dice are never taken beyond those needed.",
 ["inputs","histories"],"all counts, all side numbers, all sequences of dice the supplier may hand over",
 "Tests roll a handful of fixed dice lists; the claim is over every count and every supplier behaviour.",
 ["pkg/core/dice/roller/roller.go","pkg/core/dice/feeder/feeder.go"],
 [("roll loop","pkg/core/dice/roller/roller.go RollDice")])
p("C03","Dice reported with a result are exactly the dice that were rolled",
 "The dice list attached to the result of a successful command contains every die that was taken from the dice supply while the command ran, in the order of rolling, and nothing else; a command that rolls nothing attaches no dice. A later command, or a change made by the caller to a list it was given, never alters the recorded dice.",
 ["inputs","histories"],"all commands of every kind, all dice supplies, any sequence of commands on one instance",
 "Tests compare the list for a few commands; they cannot cover every nesting of random operands, rerolls and successes, nor aliasing through returned slices.",
 [E+"evaluator.go",E+"environment.go","pkg/core/command/command.go","pkg/bcdice/bcdice.go"],
 [("recording",E+"evaluator.go RollDice"),("log",E+"environment.go"),("attachment","pkg/core/command/execute_*.go")],
 [("dice log","dice rolled so far in this command")])
p("C04","An addition roll's total and verdict follow from its dice",
 "The total of an addition roll command is the value of its arithmetic with each roll term replaced by the sum of the dice rolled for it, terms being rolled left to right after their own counts and sides have been evaluated. If a target was given the verdict is success exactly when the total stands in the written relation (=, <>, <, >, <=, >=) to the target value, and failure otherwise.",
 ["inputs"],"all addition-roll commands (any arithmetic over any number of roll terms, random operands), all targets, all dice",
 "The existing tests pick some 100 command/dice pairs; the relation must hold for every expression shape and every dice outcome.",
 ["pkg/core/command/execute_d_roll_expr.go","pkg/core/command/execute_d_roll_comp.go",E+"eval_var_args.go",E+"determine_values.go",E+"eval_infix_expression.go","pkg/core/ast/sum_roll_result.go"],
 [("operand evaluation",E+"eval_var_args.go"),("rolling",E+"determine_values.go"),("verdict","pkg/core/command/execute_d_roll_comp.go")])
p("C05","A basic (B) roll lists its dice and counts exactly the successes",
 "A basic roll lists the values of all rolled dice, in rolling order over all its terms. With a target, the success count equals the number of listed values that stand in the written relation to the target value.",
 ["inputs"],"all lists of basic rolls, all six comparisons, all targets and dice",
 "Tests use fixed small lists; count and order must hold for any number of terms and dice.",
 [E+"eval_b_roll_list.go",E+"eval_b_roll_comp.go",E+"eval_infix_expression.go","pkg/core/command/execute_b_roll_list.go","pkg/core/command/execute_b_roll_comp.go"],
 [("value list",E+"eval_b_roll_list.go"),("counting",E+"eval_infix_expression.go countNumOfSuccesses")])
p("C06","A reroll (R) roll repeats exactly the dice that reached the threshold",
 "In a reroll roll the written rolls are made first, in order, and every roll in which k>0 dice reached the threshold is followed, in queue order, by another roll of k dice with the same sides, until no roll is pending or the fixed maximum number of rolls has been made. The groups shown are these rolls in order, and the success count is the number of all dice in all groups that satisfy the comparison.",
 ["inputs","histories"],"all lists of reroll terms, thresholds, comparisons, and all dice sequences of any length up to the reroll limit",
 "Chains of rerolls are unbounded sequences of dice; tests fix a few short chains.",
 [E+"eval_r_roll_list.go",E+"eval_r_roll_comp.go","pkg/core/command/execute_r_roll_list.go","pkg/core/command/execute_r_roll_comp.go"],
 [("queue loop",E+"eval_r_roll_list.go"),("success count",E+"eval_r_roll_comp.go")])
p("C07","An exploding (U) roll builds its groups, maximum, total and successes correctly",
 "In an exploding roll each die starts a group that is extended by one more die while the last die reached the threshold (up to the fixed maximum), and the group's value is the sum of its dice. The reported maximum is the largest group value plus the modifier, the reported total is the sum of all dice plus the modifier once, and the success count is the number of groups whose value plus the modifier satisfies the comparison.",
 ["inputs","histories"],"all lists of exploding terms, thresholds, modifiers of any sign, comparisons, all dice sequences",
 "Explosion chains are unbounded and modifiers arbitrary; tests fix a few.",
 [E+"eval_u_roll_expr.go",E+"eval_u_roll_comp.go","pkg/core/object/u_roll_expr_result.go","pkg/core/object/array.go","pkg/core/command/execute_u_roll_expr.go","pkg/core/command/execute_u_roll_comp.go"],
 [("groups",E+"eval_u_roll_expr.go evalCompoundingRoll"),("maximum and total","pkg/core/object/u_roll_expr_result.go"),("success count",E+"eval_u_roll_comp.go")])
p("C08","No rerolling starts without a threshold of at least 2",
 "A reroll or exploding roll whose threshold is missing or below 2 takes no dice for its terms and answers with the message explaining which threshold to give, instead of rolling. A reroll roll without its own threshold but with a success target uses the target value as threshold; an explicit threshold is never overridden by the target.",
 ["inputs"],"all reroll/exploding commands with and without thresholds and targets, any threshold expression",
 "Tests check a few literal thresholds; the guard must hold for every computed threshold and target.",
 [E+"reroll_threshold.go","pkg/core/command/execute_r_roll_list.go","pkg/core/command/execute_r_roll_comp.go","pkg/core/command/execute_u_roll_expr.go","pkg/core/command/execute_u_roll_comp.go"],
 [("default threshold",E+"reroll_threshold.go SetRerollThreshold"),("guard",E+"reroll_threshold.go CheckRRollThreshold, CheckURollThreshold")])
p("C09","A random number operand lies inside the written range",
 "A random number operand written as a range from a to b takes one die with b-a+1 sides and has the value a-1 plus that die, so it is always between a and b inclusive and every value of the range is possible. If a is not less than b it is an error and no die is taken.",
 ["inputs"],"all 64-bit bounds and all dice",
 "Tests use three or four ranges.",
 [E+"eval_infix_expression.go"],[("range",E+"eval_infix_expression.go evalRandomNumber")])
p("C10","A choice returns the item selected by one die",
 "A choice among n items rolls exactly one die with n sides and answers the item at that position, counted from one in the written order, unchanged.",
 ["inputs"],"all item lists of any length and content, all dice",
 "Tests use lists of three or four items.",
 [E+"eval_choice.go","pkg/core/command/execute_choice.go","pkg/core/ast/choice.go"],
 [("selection",E+"eval_choice.go"),("item list","pkg/core/ast/choice.go")])
p("C11","The displayed expression keeps the structure of what is evaluated",
 "The infix text shown for a command keeps operands, operators and their order, and puts parentheses around an operand whenever it binds weaker than its context, or binds equally on the side where the operator does not associate; a unary minus is parenthesised except at the left end of the displayed expression or parenthesised group. Rolled terms are shown as their sum followed by their dice, so reading the text with the usual precedence gives the same value.",
 ["inputs"],"all expression trees of any depth",
 "Tests pin about a hundred renderings; the rule must hold for every nesting of operators.",
 ["pkg/core/notation/notation.go","pkg/core/ast/basic_infix_expression.go","pkg/core/ast/divide.go","pkg/core/ast/variable_infix_expression.go","pkg/core/ast/operator_precedence.go"],
 [("rendering","pkg/core/notation/notation.go InfixNotation"),("precedence and associativity","pkg/core/ast/*.go constructors")])
p("C12","The message has one fixed layout per kind of command",
 "A result's message is the game identifier, ' : ' and the parts joined with ' ＞ ', the parts being, per kind of command, the parenthesised expression, the rolled values, the total or success count or verdict, in that order and all describing the same evaluation. The machine-readable verdict is set for target commands of addition rolls only and agrees with the text.",
 ["inputs"],"all commands of every kind and all dice",
 "Tests compare full messages for fixed inputs only.",
 ["pkg/core/command/result.go","pkg/core/command/execute_*.go","pkg/core/object/array.go"],
 [("message","pkg/core/command/result.go"),("parts","pkg/core/command/execute_*.go")])
p("C13","Command text is read with the documented grammar, precedence and associativity",
 "A command text is accepted exactly when it belongs to the documented grammar (ignoring the case of its letters), and is understood with * and / binding tighter than + and -, equal operators grouping from the left, and parentheses and unary signs as written. Integer literals have their decimal value, and a literal that does not fit is rejected rather than changed.",
 ["inputs"],"all input texts",
 "Tests parse a few hundred strings; acceptance and structure are claims about every string.",
 ["pkg/core/parser/parser.go","pkg/core/parser/parser.pigeon"],
 [("grammar and actions","pkg/core/parser/parser.go")])
p("C14","Secret marker and trailing comment handling",
 "A leading S or s marks the result as secret and is removed before the rest is run, and no other input is marked secret. If the whole text is not a valid command, the part before the first white space is run instead; the result is then that of running that part, and the error reported when nothing can be run is the error of that part.",
 ["inputs"],"all input texts including empty, multi-byte and S-only texts, all dice",
 "Tests cover a few prefixed and commented commands.",
 ["pkg/bcdice/bcdice.go","pkg/core/util/secret_roll.go"],
 [("secret marker","pkg/core/util/secret_roll.go"),("fallback","pkg/bcdice/bcdice.go ExecuteCommand")])
p("C15","No command text makes the dice engine panic",
 "Running any command text on any dice supply ends with a result or an error: there is no index out of range, nil dereference, failed type assertion, division by zero or other run-time panic, as long as the number of dice asked for fits in memory.",
 ["inputs","fault_sequences"],"all parsed commands, all operand values, all (including failing or malformed) dice supplies",
 "A panic hides in one unusual combination of operands, dice and nesting; tests sample none of the malformed dice.",
 [E+"*.go","pkg/core/command/*.go","pkg/core/notation/notation.go","pkg/core/object/*.go","pkg/core/ast/*.go","pkg/bcdice/bcdice.go","pkg/core/parser/parser.go"],
 [("evaluation",E+"*.go"),("execution","pkg/core/command/*.go"),("rendering","pkg/core/notation/notation.go")])
p("C16","The manual dice queue is first-in first-out and isolated from its callers",
 "Dice put into the manual queue come out in the order they were put in, each exactly once, and asking an empty queue is an error that leaves it empty. Lists handed to or received from the queue can be changed afterwards without changing the queue, and reading its contents or length takes nothing out.",
 ["histories"],"all sequences of set, append, push, take, clear and read operations and all contents",
 "Tests run one or two short operation sequences; order and isolation are claims over all histories.",
 ["pkg/core/dice/feeder/queue.go"],[("queue","pkg/core/dice/feeder/queue.go")],[("queue","dice still to be supplied")])
p("C17","Random dice are in range and reproducible from the seed",
 "A random die with S sides (S at least 1) has S sides and a value from 1 to S, each drawn from one uniform choice among S values. Two random suppliers built from the same seed deliver the same dice for the same requests.",
 ["inputs","histories"],"all seeds, all side numbers from 1, all request sequences",
 "Tests fix one seed and eleven dice.",
 ["pkg/core/dice/feeder/mt19937.go"],[("random die","pkg/core/dice/feeder/mt19937.go Next")])
p("C18","The game system catalogue is consistent",
 "Every identifier in the list of available game systems can be selected and the dice bot obtained then reports that same identifier; any other identifier is an error that leaves the current selection unchanged. The basic dice bot, when asked for, comes first and only once, and the rest is in sorted order.",
 ["inputs","histories"],"all identifier texts, all sequences of selections",
 "Tests look up the known identifier and one unknown one.",
 ["pkg/dicebot/list/list.go","pkg/bcdice/bcdice.go","pkg/dicebot/gamesystem/basic/basic.go","pkg/dicebot/dicebot.go"],
 [("catalogue","pkg/dicebot/list/list.go"),("selection","pkg/bcdice/bcdice.go SetDiceBotByGameID")])
p("C19","API answers carry a truthful status",
 "Every JSON answer of the web API has a boolean 'ok' that is true exactly when the HTTP status is 200, together with the fields of the answer's model unchanged; an error answer carries its status code and message, and a list answer its items and their count.",
 ["inputs"],"all status codes, response models and collections",
 "Tests request three fixed routes with status 200 only.",
 ["cmd/GoBCDiceAPI/helpers/response.go","cmd/GoBCDiceAPI/models/*.go","cmd/GoBCDiceAPI/controllers/*.go"],
 [("envelope","cmd/GoBCDiceAPI/helpers/response.go JSONResponse")])
p("C20","The interactive shell keeps its dice source consistent and its dice queue intact",
 "Choosing a dice source in the interactive shell switches every later command and roll to that one source. Evaluating a command or rolling dice with a manual queue leaves the queue as it was before, whatever the outcome, and setting the queue replaces it only when the whole dice list is valid and the source is manual.",
 ["histories","inputs"],"all sequences of shell commands and all arguments",
 "Tests drive a few commands one at a time.",
 ["cmd/GoBCDiceREPL/repl/repl.go","pkg/bcdice/bcdice.go"],
 [("dice source","cmd/GoBCDiceREPL/repl/repl.go setDieFeeder"),("queue restore","cmd/GoBCDiceREPL/repl/repl.go eval, rollDice"),("queue setting","cmd/GoBCDiceREPL/repl/repl.go setDiceQueue")])
p("C21","Dice lists written as text are read back exactly",
 "A dice list text is accepted exactly when it is empty or a comma separated list of value/sides pairs of decimal numbers that fit in a 64-bit integer, with optional surrounding white space, and gives those dice in order; formatting a dice list and reading it back gives the same list.",
 ["inputs"],"all texts and all dice lists with non-negative numbers",
 "Tests parse a handful of lists.",
 ["pkg/dicebot/testing/testcase.go","pkg/core/dice/die.go"],
 [("reading","pkg/dicebot/testing/testcase.go ParseDice"),("writing","pkg/core/dice/die.go FormatDice")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
