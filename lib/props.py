"""One function per property: which enumerations decide it."""

def C07(c):
    c.enum("h_curves", "seq")

def C08(c):
    c.enum("h_curves", "math")

def C09(c):
    c.enum("h_curves", "eos")

def C04(c):
    c.enum("h_props", "matprop")

def C05(c):
    c.enum("h_props", "cond")

def C06(c):
    c.enum("h_props", "process")

def C13(c):
    c.enum("h_flow", "closed")
    c.enum("h_flow", "conserve")
    c.enum("h_flow", "step")

def C14(c):
    c.enum("h_flow", "exact")
    c.enum("h_flow", "steady")

def C15(c):
    c.enum("h_flow", "jac")
    c.enum("h_flow", "tsjac")

def C16(c):
    c.enum("h_flow", "bc")
    c.enum("h_flow", "sides")

def C17(c):
    c.enum("h_flow", "forms")

def C19(c):
    c.enum("h_flow", "diag")

def C26(c):
    for g in ("mesh", "spell", "bad"): c.enum("h_pf", g)
    c.enum("h_pf", "part", mpi=2)
    c.enum("h_pf", "spell", name="spell-2", mpi=2)
    c.enum("h_pf", "part", name="part-3", mpi=3)
    c.enum("h_pf", "mesh", name="mesh-3", mpi=3)

def C27(c):
    c.enum("h_flow", "rot")
    c.enum("h_flow", "renum")

def C28(c):
    c.enum("h_flow", "memory")

def C10(c):
    c.enum("h_ti", "pattern")
    c.enum("h_ti", "cuts")
    c.enum("h_ti", "run")

def C01(c):
    c.enum("h_setup", "life")

def C03(c):
    c.enum("h_opts", "opts")

def C11(c):
    c.enum("h_mesh", "topo")
    c.enum("h_mesh", "topo", name="topo2", mpi=2)
    c.enum("h_mesh", "topo", name="topo3", mpi=3)

def C12(c):
    c.enum("h_mesh", "geom")
    c.enum("h_mesh", "geom", name="geom2", mpi=2)
    c.enum("h_mesh", "geom", name="geom3", mpi=3)

def C21(c):
    for np in (2, 3, 4):
        c.enum("h_par", "par", name="par%d" % np, mpi=np)
    for g in ("parth", "parsalt"):
        c.enum("h_par", g, name=g + "2", mpi=2)

def C22(c):
    c.enum("h_two", "thref")
    c.enum("h_two", "thany")
    c.enum("h_two", "thlin")
    c.enum("h_two", "thcond")
    c.enum("h_two", "thjac")
    c.enum("h_par", "parth", name="parth2", mpi=2)

def C23(c):
    c.enum("h_two", "saltref")
    c.enum("h_two", "saltany")
    c.enum("h_two", "saltlin")
    c.enum("h_two", "saltcond")
    c.enum("h_two", "saltjac")
    c.enum("h_par", "parsalt", name="parsalt2", mpi=2)

def C18(c):
    c.enum("h_fe", "sys")
    c.enum("h_fe", "trans")
    for np in (2, 3):
        c.enum("h_fe", "syspar", name="syspar%d" % np, mpi=np)
        c.enum("h_fe", "transpar", name="transpar%d" % np, mpi=np)

def C02(c):
    c.enum("h_layout", "layout")
    c.enum("h_fe", "layfe")
    for np in (2, 3):
        c.enum("h_layout", "layout", name="layout%d" % np, mpi=np)
        c.enum("h_fe", "layfe", name="layfe%d" % np, mpi=np)

def C24(c):
    c.enum("h_io", "reg")
    for np in (2, 3):
        c.enum("h_io", "reg", name="reg%d" % np, mpi=np)

def C20(c):
    for g in ("read", "chk", "restart"):
        c.enum("h_io", g)
        for np in (2, 3):
            c.enum("h_io", g, name="%s%d" % (g, np), mpi=np)

def C25(c):
    c.enum("h_pair", "pair", config="plain")
