------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The library as a whole, as its user sees it: the market (Market), the   *)
(* parameter objects and contracts (Terms), and the questions that can be  *)
(* asked about them - print, compare, value, simulate, price.              *)
(*                                                                         *)
(* Questions are answered from the market in force and from nothing else:  *)
(* the answer to a question is a function of the contract's terms, its     *)
(* underlying's record, the rate and the request (method, model, generator *)
(* and seed, sizes).  Which function it is, is the business of the other   *)
(* modules; here it is an arbitrary one, discovered as questions are       *)
(* asked.  Asking changes nothing.                                         *)
(***************************************************************************)
EXTENDS Terms

VARIABLES
  bags,      \* parameter objects: id -> (name -> [ty, v])
  rate, stock,
  watch, regs,   \* user observers: observer -> ticker; registrations
  opts,      \* live contracts
  said       \* answers given so far: question -> answer
svars == <<bags, rate, stock, watch, regs, opts, said>>
M == INSTANCE Market WITH hand <- None, frames <- <<>>, ling <- None

SInit == /\ bags = None /\ opts = None /\ said = None
         /\ rate = R("0x1.999999999999ap-5") /\ stock = None /\ watch = None /\ regs = <<>>

(* ---- parameter objects ---- *)
Bag(b)              == IF b \in DOMAIN bags THEN bags[b] ELSE None
SetIn(b, n, ty, v)  == bags' = CPut(bags, b, CPut(Bag(b), n, [ty |-> ty, v |-> v])) /\ UNCHANGED <<rate, stock, watch, regs, opts, said>>
CopyBag(a, b)       == bags' = CPut(bags, b, Bag(a)) /\ UNCHANGED <<rate, stock, watch, regs, opts, said>>
NewBag(b)           == bags' = CPut(bags, b, None) /\ UNCHANGED <<rate, stock, watch, regs, opts, said>>
Has(b, n)           == n \in DOMAIN Bag(b)
Gives(b, n, ty)     == Has(b, n) /\ Bag(b)[n].ty = ty

(* ---- the market ---- *)
Due(o)              == M!Frame(o).must            \* how often each observer must be told
MayBe(o)            == M!Frame(o).may
Change(o)           == /\ IF M!Accepts(o) THEN stock' = M!StockAfter(o) /\ rate' = M!RateAfter(o) ELSE UNCHANGED <<stock, rate>>
                       /\ UNCHANGED <<bags, watch, regs, opts, said>>
Observe(o, t)       == o \notin DOMAIN watch /\ watch' = CPut(watch, o, t) /\ regs' = Append(regs, o) /\ UNCHANGED <<bags, rate, stock, opts, said>>
Unobserve(o)        == o \in DOMAIN watch /\ watch' = CDel(watch, o) /\ regs' = SelectSeq(regs, LAMBDA x : x # o) /\ UNCHANGED <<bags, rate, stock, opts, said>>

(* ---- contracts ---- *)
Made(i, f, cp, b)   == Creates(f, Bag(b), DOMAIN stock)
Write(i, f, cp, b)  == /\ IF Made(i, f, cp, b) THEN opts' = CPut(opts, i, OptionOf(f, cp, Bag(b))) ELSE UNCHANGED opts
                       /\ UNCHANGED <<bags, rate, stock, watch, regs, said>>
Settle(i)           == i \in DOMAIN opts /\ opts' = CDel(opts, i) /\ UNCHANGED <<bags, rate, stock, watch, regs, said>>

(* ---- questions ---- *)
Under(i)            == stock[opts[i].ticker]
EqualNow(i, j)      == SameTerms(opts[i], opts[j], Under(i), Under(j))
Lines(i)            == OptionLines(opts[i], Under(i), rate)
\* What an answer may depend on: not the ticker's name, not the object, not the past.
Terms1(i)           == LET o == opts[i] IN [f |-> o.f, T |-> R(o.T), kind |-> o.pay.kind, cp |-> o.pay.cp, k1 |-> R(o.pay.k1), k2 |-> R(o.pay.k2), B |-> R(o.B), dir |-> o.dir]
PriceQ(i, req)      == <<"price", Terms1(i), Under(i), rate, req>>
SimQ(t, req)        == <<"sim", stock[t], rate, req>>
Answer(q, a)        == /\ IF q \in DOMAIN said THEN a = said[q] /\ UNCHANGED said ELSE said' = CPut(said, q, a)
                       /\ UNCHANGED <<bags, rate, stock, watch, regs, opts>>
Ask                 == UNCHANGED svars
\* A new process: nothing of the session survives, and the answers stay what they are.
Restart             == /\ bags' = None /\ opts' = None /\ rate' = R("0x1.999999999999ap-5") /\ stock' = None /\ watch' = None /\ regs' = <<>>
                       /\ UNCHANGED said

(* ---- what is held ---- *)
\* Memory in use is a function of what is alive - stocks, contracts, observers, parameter objects - up to a
\* slack that does not depend on the past: a round that ends where it began may be repeated for ever.
Alive               == <<DOMAIN stock, DOMAIN opts, DOMAIN watch, DOMAIN bags>>
Slack               == 4096
Holds(from, to)     == to - from <= Slack

(* ---- guarantees ---- *)
MarketValid    == \A t \in DOMAIN stock : M!ValidRec(stock[t])
OptsLive       == \A i \in DOMAIN opts : opts[i].ticker \in DOMAIN stock /\ ValidPayoff(opts[i].pay)
EqualSound     == /\ \A i \in DOMAIN opts : EqualNow(i, i)
                  /\ \A i, j \in DOMAIN opts : EqualNow(i, j) <=> EqualNow(j, i)
                  /\ \A i, j, k \in DOMAIN opts : EqualNow(i, j) /\ EqualNow(j, k) => EqualNow(i, k)
\* equal contracts of the same kind print alike (but for the ticker) and have the same price
EqualAlike     == \A i, j \in DOMAIN opts : EqualNow(i, j) /\ SameKind(opts[i], opts[j]) =>
                    /\ {l \in Lines(i) : l.lab # "Ticker"} = {l \in Lines(j) : l.lab # "Ticker"}
                    /\ \A req \in {"q"} : PriceQ(i, req) = PriceQ(j, req)
LinesComplete  == \A i \in DOMAIN opts : \A a, b \in Lines(i) : a.sec = b.sec /\ a.lab = b.lab => a = b
\* questions change nothing, and every other step leaves the answers given
AskInert       == (said' # said) => UNCHANGED <<bags, rate, stock, watch, regs, opts>>
SaidStays      == \A q \in DOMAIN said : q \in DOMAIN said' /\ said'[q] = said[q]
=============================================================================
