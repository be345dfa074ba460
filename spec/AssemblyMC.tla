---- MODULE AssemblyMC ----
\* constants for the model-checking and generation configurations of AssemblyImpl
EXTENDS AssemblyImpl
M(t, r) == [t |-> t, rec |-> r]
\* one block with every kind of message
Full1 == << [msgs |-> <<M("H", ""), M("U", "acct/"), M("U", "acct/"), M("D", "acct/"), M("SH", "state/"), M("SM", "state/")>>] >>
Names1 == <<"H", "Uacct/e", "Uacct/v", "Dacct/d", "SH", "SM0">>
\* two prefixes of which one is tracked, two subbatches, a subbatch with two parts
Mixed == << [msgs |-> <<M("H", ""), M("U", "acct/"), M("D", "acct/"), M("U", "stor/"), M("SH", "s1/"), M("SM", "s1/"), M("SM", "s1/"), M("SH", "s2/"), M("SM", "s2/")>>] >>
\* several small blocks and a tiny memory
Three == << [msgs |-> <<M("H", ""), M("U", "acct/")>>],
            [msgs |-> <<M("H", ""), M("SH", "s1/"), M("SM", "s1/")>>],
            [msgs |-> <<M("H", "")>>],
            [msgs |-> <<M("H", ""), M("D", "acct/")>>] >>
AllRecs == {"acct/", "stor/", "s1/", "s2/", "state/"}
SomeRecs == {"acct/", "s1/"}
NoNames == <<>>
====
