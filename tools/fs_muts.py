V = "src/linear_gkr/zk_verifier.cpp"; P = "src/linear_gkr/zk_prover.cpp"
f1 = "				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));\n				r_u[j] = trans.random();"
M = {
 "fs-poly-f": (["Z06"], [(V, f1, "				r_u[j] = trans.random();")]),
 "fs-poly-c": (["Z06"], [(V, "				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));\n				r_u[j] = trans.random();", "				r_u[j] = trans.random();")]),
 "fs-poly-twice": (["Z06"], [(V, "				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));\n				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));\n				r_u", "				trans.msg.push_back(container(poly.d, container::fld_ele_indicator));\n				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));\n				r_u")]),
 "fs-digest-companion": (["Z06"], [(V, "		trans.msg.push_back(container(digest_input.second[i]));", "		trans.msg.push_back(container(digest_input.first[i]));")]),
 "fs-mask-one": (["Z06"], [(V, "		for(int j = 0; j < digest_mask.size(); ++j)\n			trans", "		for(int j = 1; j < digest_mask.size(); ++j)\n			trans")]),
 "fs-witness": (["Z06"], [(V, "r_verify_verify &= vpdR::verify(", "trans.msg.pop_back(); r_verify_verify &= vpdR::verify(")]),
 "fs-early-rv": (["Z06"], [(V, "				trans.msg.push_back(container(poly.d, container::fld_ele_indicator));\n				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));\n				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));\n				r_u[j] = trans.random();", "				r_u[j] = trans.random();\n				trans.msg.push_back(container(poly.d, container::fld_ele_indicator));\n				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));\n				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));")]),
}
