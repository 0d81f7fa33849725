PROPS, NA = [], []

TRUST = ("Trusts rustc's MIR and type resolution; trait-object calls are over-approximated by every implementation; "
         "panics are not exits unless said.")


def P(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, technique=technique, note=note + " " + TRUST))


def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                   mech=mech, reason=reason))


CU = "crates/common/src/"
DE = "crates/document_editing/src/"
TD = "crates/public_api/src/"

