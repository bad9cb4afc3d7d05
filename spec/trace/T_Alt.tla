------------------------------- MODULE T_Alt -------------------------------
(* Recorded sessions of the drivers outside the Bitcoin family (P14-P20).    *)
(* The session state holds the unsigned texts the session has created.       *)
EXTENDS Moac, Ripple, Dot, Vsys, Bigbang, Filenet, Cosmos, Bnb, Bytom, Wayki, IOUtils
VARIABLES sc, i, st
Start == [made |-> {}]      \* the creations of this session, as positions in the trace
Made(s, e) == {LET m == LoadTrace(IOEnv.TRACE)[e.sc].ev[k] IN [tx |-> m.tx, q |-> m.q] : k \in s.made}

(* what creation must give: {} = refused.  Clock and nonce fields, which the *)
(* request does not determine, are read off the observed text and checked    *)
(* for plausibility by the driver's operator.                                *)
Created(e) ==
    CASE e.drv = "moac" -> MoacCreate(e.q)
      [] e.drv = "xrp" -> XrpCreate(e.q)
      [] e.drv = "dot" -> DotCreate(e.q)
      [] e.drv = "vsys" -> VsysCreate(e.q, e)
      [] e.drv = "bbc" -> BbcCreate(e.q, e)
      [] e.drv = "fn" -> FnCreate(e.q, e)
      [] e.drv \in {"atom", "eva"} -> CosCreate(e.q)
      [] e.drv = "bnb" -> BnbCreate(e.q)
      [] e.drv \in {"xvg", "ali", "vds"} -> FkCreate(e.drv, e.q, e)
      [] e.drv = "hyc" -> HycCreate(e.q)
      [] e.drv = "etp" -> EtpCreate(e.q)
      [] e.drv = "ela" -> ElaCreate(e.q)
      [] e.drv = "fiii" -> FiiiCreate(e.q, e)
      [] e.drv = "btm" -> BtmCreate(e.q)
      [] e.drv = "wicc" -> WkCreate(e.q)
      [] e.drv = "ont" -> OntCreate(e.q, e)
(* requests a driver may also refuse *)
May(e) == (e.drv = "bnb" /\ BnbMay(e.q)) \/ (e.drv = "btm" /\ BtmMay(e.q)) \/ (e.drv = "wicc" /\ WkMay(e.q))
Combined(e, made) ==        \* verdict yes / no / open, and what is released
    CASE e.drv = "moac" -> MoacCombine(e)
      [] e.drv = "xrp" -> XrpCombine(e)
      [] e.drv = "dot" -> DotCombine(e, made)
      [] e.drv = "vsys" -> VsysCombine(e)
      [] e.drv = "bbc" -> BbcCombine(e)
      [] e.drv = "fn" -> FnCombine(e)
      [] e.drv \in {"atom", "eva"} -> CosCombine(e, e.drv = "eva")
      [] e.drv = "bnb" -> BnbCombine(e, made)
      [] e.drv \in {"xvg", "ali", "vds"} -> FkCombine(e.drv, e)
      [] e.drv = "hyc" -> HycCombine(e)
      [] e.drv = "etp" -> EtpCombine(e)
      [] e.drv = "ela" -> ElaCombine(e, made)
      [] e.drv = "fiii" -> FiiiCombine(e)
      [] e.drv = "btm" -> BtmCombine(e)
      [] e.drv = "wicc" -> WkCombine(e)
      [] e.drv = "ont" -> OntCombine(e, made)
Listed(e) == CASE e.drv = "hyc" -> HycList(e.tx) [] e.drv = "etp" -> EtpList(e.tx)

(* signatures: curve, whether the lower half is promised, message length (0: any but empty, -1: any) *)
Sch(c, low, n) == [curve |-> c, low |-> low, n |-> n]
Scheme(d) ==
    CASE d = "dot" -> Sch("ed", FALSE, 0)
      [] d \in {"bbc", "btm"} -> Sch("ed", FALSE, 32)
      [] d = "fiii" -> Sch("ed", FALSE, 0)
      [] d = "ela" -> Sch("r1", FALSE, 32)
      [] d = "ont" -> Sch("r1", TRUE, 32)
      [] d = "vsys" -> Sch("x", FALSE, -1)
      [] OTHER -> Sch("k1", TRUE, 32)
ValidPrv(c, k) ==
    /\ Len(k) = 32
    /\ c \in {"k1", "r1"} => Strip(k) # <<>> /\ BigCmp(k, CurveOrder(c)) < 0
SigOK(c, k, m, s) ==
    CASE c = "ed" -> EdOK(PubOf("ed", k), m, s)
      [] c = "x" -> XEdOK(EdToX(PubOf("ed", k)), m, s)
      [] OTHER -> EcdsaOK(c, PubOf(c, k), m, s)
High(c, s) == IF c = "r1" THEN HighR1(s) ELSE HighS(s)
SignOK(e) ==
    LET c == Scheme(e.drv)
        m == {b \in HexOf(e.msg) : CASE c.n = 0 -> b # <<>> [] c.n < 0 -> TRUE [] OTHER -> Len(b) = c.n}
        k == HexBytes(e.prv)
        g == HexOf(e.sig)
    IN IF m = {} \/ ~ValidPrv(c.curve, k) THEN ~e.ok /\ e.sig = ""
       ELSE /\ e.ok /\ g # {}
            /\ LET s == One(g) IN
               /\ Len(s) = (IF e.drv = "moac" THEN 65 ELSE 64)
               /\ SigOK(c.curve, k, One(m), Take(s, 64))
               /\ c.low => ~High(c.curve, Take(s, 64))
               /\ e.drv = "moac" => s[65] \in {0, 1} /\ Recover("k1", One(m), Take(s, 64), s[65]) = PubOf("k1", k)
               /\ e.drv = "btm" => e.pub = ToHex(PubOf("ed", k))
               /\ e.drv = "ont" => e.pub = ToHex(PubOf("r1", k))
               /\ e.drv = "vsys" => e.pub = ToHex(EdToX(PubOf("ed", k)))

Same(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
Judge(s, e) ==
    CASE e.op = "create" ->
           LET w == Created(e)
           IN IF w = {} \/ (May(e) /\ ~e.ok) THEN Must(e.panic = "" /\ ~e.ok /\ e.tx = "" /\ Len(e.msgs) = 0, s, "refused")
              ELSE Must(e.panic = "" /\ e.ok /\ e.tx = One(w).tx /\ Same(e.msgs, One(w).msgs)
                        /\ ("who" \in DOMAIN One(w) => Same(e.who, One(w).who)),
                        [s EXCEPT !.made = @ \cup {e.at}], ToString(One(w)))
      [] e.op = "sign" -> Must(e.panic = "" /\ SignOK(e), s, "a valid signature of the message by the key, or refused")
      [] e.op = "list" ->
           LET w == Listed(e) IN Must(e.panic = "" /\ (IF w = {} THEN ~e.ok /\ Len(e.ins) = 0 ELSE e.ok /\ Same(e.ins, One(w))), s, ToString(w))
      [] e.op = "btmmulti" -> LET w == BtmMulti(e) IN Must(e.panic = "" /\ (IF w = {} THEN ~e.ok /\ e.addr = "" /\ e.script = "" ELSE e.ok /\ <<e.addr, e.script>> = One(w)), s, ToString(w))
      [] e.op = "btmpad" ->
           LET w == UNION {BtmUnscript(b) : b \in HexOf(e.script)}
           IN Must(e.panic = "" /\ (IF w = {} THEN ~e.ok ELSE e.ok /\ e.m = One(w).m /\ Same(e.keys, Map(ToHex, One(w).keys))), s, ToString(w))
      [] e.op = "btminsert" -> LET w == BtmInsert(e.tx, e.its) IN Must(e.panic = "" /\ (IF w = {} THEN ~e.ok /\ e.out = "" ELSE e.ok /\ e.out = One(w)), s, ToString(w))
      [] e.op = "btmverify" -> Must(e.panic = "" /\ e.ok = BtmValid(e.tx), s, ToString(BtmValid(e.tx)))
      [] e.op = "ontread" ->
           LET w == OntRead(HexBytes(e.tx))
           IN Must(e.panic = "" /\ (IF w = {} THEN ~e.ok ELSE e.ok /\ e.out = e.tx /\ e.got = OntShown(One(w)) /\ HexBytes(e.head) = Take(HexBytes(e.tx), 2)), s, ToString(w))
      [] e.op = "combine" ->
           LET c == Combined(e, Made(s, e))
               v == IF c.v = "yes" /\ (\A m \in Made(s, e) : m.tx # e.tx) THEN "open" ELSE c.v
           IN Must(/\ e.panic = ""
                   /\ v = "yes" => e.ok
                   /\ v = "no" => ~e.ok
                   /\ e.ok => c.out = "?" \/ e.out = c.out
                   /\ ~e.ok => e.out = "", s, StrCat(StrCat(v, " "), c.out))
      [] e.op = "verify" ->
           LET c == Combined(e, Made(s, e))
           IN Must(/\ e.panic = ""
                   /\ c.v = "yes" /\ (\E m \in Made(s, e) : m.tx = e.tx) => e.ok
                   /\ c.v = "no" => ~e.ok, s, c.v)
      [] e.op = "form" ->
           LET w == VsysForm(e)
           IN Must(e.panic = "" /\ (IF w = {} THEN ~e.ok /\ e.out = "" ELSE e.ok /\ e.out = One(w)), s, ToString(w))
      [] e.op = "read" ->      \* what is reported, encoded again, is the text
           Must(e.panic = "" /\ (e.own => e.ok /\ e.form /\ e.data = "" /\ BnbReleased(e.q, HexBytes(e.sig), HexBytes(e.pub)) = e.text), s, "the fields of the transaction")
INSTANCE TraceBase
=============================================================================
