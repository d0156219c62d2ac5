package main

var registry = []Harness{
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPShares", Cfg: map[string]int{"bits": 1, "outs": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPShares", Cfg: map[string]int{"bits": 2, "outs": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPShares", Cfg: map[string]int{"bits": 2, "outs": 5}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPShares", Cfg: map[string]int{"bits": 3, "outs": 5}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPShares", Cfg: map[string]int{"bits": 1, "outs": 8}, Tier: "t", Reach: []string{"end"}},
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPReuse", Cfg: map[string]int{"outs": 5, "more": 0}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPReuse", Cfg: map[string]int{"outs": 5, "more": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPReuse", Cfg: map[string]int{"outs": 5, "more": 1, "down": 1}, Tier: "q", Reach: []string{"end"}},
	// C01
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 1, "cols": 3, "bs": 2, "servers": 2, "lens": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 2, "cols": 2, "bs": 1, "servers": 2, "lens": 1, "bytes": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 2, "cols": 9, "bs": 1, "servers": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 3, "cols": 3, "bs": 2, "servers": 4, "lens": 2, "bytes": 1, "again": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 1, "cols": 129, "bs": 1, "servers": 2, "fixidx": 70}, Tier: "q", Unwind: 300, Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPRandomDB", Cfg: map[string]int{"rows": 2, "cols": 2, "bs": 2, "servers": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPRandomDB", Cfg: map[string]int{"rows": 2, "cols": 9, "bs": 1, "servers": 3}, Tier: "t", Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 1, "cols": 4, "bs": 3, "servers": 2, "lens": 1}, Tier: "t", Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 1, "cols": 260, "bs": 1, "servers": 2, "fixidx": 140}, Tier: "t", Unwind: 600, Timeout: 800, Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 2, "cols": 17, "bs": 2, "servers": 5, "lens": 2, "bytes": 1}, Tier: "t", Reach: []string{"end"}},
	// C02
	{Prop: "C02", Pkg: "vpharness/c02", Func: "VPUniform", Cfg: map[string]int{"rows": 2, "cols": 9, "servers": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C02", Pkg: "vpharness/c02", Func: "VPUniform", Cfg: map[string]int{"rows": 1, "cols": 3, "servers": 3, "rounds": 2, "bytes": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C02", Pkg: "vpharness/c02", Func: "VPUniform", Cfg: map[string]int{"rows": 1, "cols": 17, "servers": 4}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C02", Pkg: "vpharness/c02", Func: "VPUniform", Cfg: map[string]int{"rows": 2, "cols": 40, "servers": 5, "bytes": 1}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C02", Pkg: "vpharness/c02", Func: "VPShape", Cfg: map[string]int{"rows": 2, "cols": 9, "servers": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C02", Pkg: "vpharness/c02", Func: "VPRefuse", Tier: "q", Reach: []string{"end"}},
	// C03
	{Prop: "C03", Pkg: "vpharness/c03", Func: "VPHonest", Cfg: map[string]int{"rows": 1, "cols": 3, "len": 2, "servers": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C03", Pkg: "vpharness/c03", Func: "VPHonest", Cfg: map[string]int{"rows": 2, "cols": 2, "len": 1, "servers": 2, "repeat": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C03", Pkg: "vpharness/c03", Func: "VPHonest", Cfg: map[string]int{"rows": 1, "cols": 5, "len": 1, "servers": 3}, Tier: "t", Reach: []string{"end"}},
	{Prop: "C03", Pkg: "vpharness/c03", Func: "VPTree", Cfg: map[string]int{"records": 3, "len": 2, "varlen": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C03", Pkg: "vpharness/c03", Func: "VPTree", Cfg: map[string]int{"records": 1, "len": 2, "varlen": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C03", Pkg: "vpharness/c03", Func: "VPTree", Cfg: map[string]int{"records": 5, "len": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C03", Pkg: "vpharness/c03", Func: "VPForge", Cfg: map[string]int{"rows": 1, "cols": 1, "len": 2, "varlen": 1, "anyend": 1}, Tier: "q", Reach: []string{"accepted", "rejected"}},
	{Prop: "C03", Pkg: "vpharness/c03", Func: "VPForge", Cfg: map[string]int{"rows": 1, "cols": 3, "len": 1, "varlen": 1}, Tier: "q", Reach: []string{"accepted", "rejected"}},
	{Prop: "C03", Pkg: "vpharness/c03", Func: "VPForge", Cfg: map[string]int{"rows": 2, "cols": 2, "len": 2, "servers": 3}, Tier: "q", Reach: []string{"accepted", "rejected"}},
	// C13
	{Prop: "C13", Pkg: "vpharness/c13", Func: "VPDirectory", Cfg: map[string]int{"keys": 20}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C13", Pkg: "vpharness/c13", Func: "VPDirectory", Cfg: map[string]int{"keys": 20, "square": 1, "free": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C13", Pkg: "vpharness/c13", Func: "VPDirectory", Cfg: map[string]int{"keys": 20, "merkle": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C13", Pkg: "vpharness/c13", Func: "VPDirectory", Cfg: map[string]int{"keys": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C13", Pkg: "vpharness/c13", Func: "VPDirectory", Cfg: map[string]int{"keys": 20, "order": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C13", Pkg: "vpharness/c13", Func: "VPDirectory", Cfg: map[string]int{"keys": 3, "order": 1, "merkle": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C13", Pkg: "vpharness/c13", Func: "VPDirectory", Cfg: map[string]int{"keys": 20, "order": 1, "perms": 6}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C13", Pkg: "vpharness/c13", Func: "VPDirectory", Cfg: map[string]int{"keys": 30, "merkle": 1}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C13", Pkg: "vpharness/c13", Func: "VPPad", Tier: "q", Reach: []string{"end"}},
	// C12
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPWords", Tier: "q", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPBits", Tier: "q", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPElements", Tier: "q", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPRandom", Tier: "q", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPNegate", Tier: "q", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPVector", Tier: "q", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPIndices", Tier: "q", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPHash", Tier: "q", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPSquare", Tier: "q", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPWords", Cfg: map[string]int{"max": 24}, Tier: "t", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPBits", Cfg: map[string]int{"max": 24}, Unwind: 300, Tier: "t", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPElements", Cfg: map[string]int{"max": 16}, Tier: "t", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPNegate", Cfg: map[string]int{"max": 16}, Tier: "t", Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPIndices", Cfg: map[string]int{"cols": 40, "max": 1000000}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPHash", Cfg: map[string]int{"max": 12, "size": 60}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C12", Pkg: "vpharness/c12", Func: "VPSquare", Cfg: map[string]int{"from": 120, "max": 2000}, Unwind: 3000, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	// C07
	{Prop: "C07", Pkg: "vpharness/c07", Func: "VPTags", Tier: "q", Reach: []string{"accepted", "rejected"}},
	{Prop: "C07", Pkg: "vpharness/c07", Func: "VPTags", Cfg: map[string]int{"again": 1, "bytes": 1}, Tier: "q", Reach: []string{"accepted", "rejected"}},
	{Prop: "C07", Pkg: "vpharness/c07", Func: "VPTags", Cfg: map[string]int{"avg": 1}, Tier: "q", Reach: []string{"accepted", "rejected"}},
	{Prop: "C07", Pkg: "vpharness/c07", Func: "VPTags", Cfg: map[string]int{"avg": 1, "again": 1, "bytes": 1}, Tier: "t", Timeout: 800, Reach: []string{"accepted", "rejected"}},
	{Prop: "C07", Pkg: "vpharness/c07", Func: "VPKeys", Tier: "q", Reach: []string{"end"}},
	{Prop: "C07", Pkg: "vpharness/c07", Func: "VPKeys", Cfg: map[string]int{"both": 1}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	// C06
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 0, "keys": 2, "lens": 3, "pin": 1, "auth": 1, "bytes": 0}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 1, "keys": 2, "auth": 0, "bytes": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 2, "keys": 2, "pin": 1, "auth": 1, "bytes": 0}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 3, "shares": 0, "keys": 2, "auth": 0, "bytes": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 4, "keys": 2, "pin": 1, "auth": 1, "bytes": 0, "zones": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 5, "keys": 2, "auth": 0, "bytes": 1, "zones": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 6, "shares": 0, "keys": 2, "minlen": 2, "lens": 1, "years": 2, "branchms": 3000, "pin": 1, "auth": 1, "bytes": 0, "zones": 2}, Tier: "q", Reach: []string{"end", "none"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 7, "shares": 0, "lens": 3, "pin": 1, "keys": 2, "auth": 0, "bytes": 1}, Tier: "q", Reach: []string{"end", "none"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 8, "shares": 0, "keys": 2, "pin": 1, "auth": 1, "bytes": 0}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 6, "keys": 2, "minlen": 2, "lens": 1, "years": 3, "branchms": 3000, "pin": 1, "auth": 1, "bytes": 0, "zones": 3}, Tier: "t", Timeout: 800, Reach: []string{"end", "none"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 3, "keys": 2, "auth": 0, "bytes": 1}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 2, "keys": 3, "long": 1, "pin": 1, "auth": 1, "bytes": 1}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C06", Pkg: "vpharness/c06", Func: "VPPredicate", Cfg: map[string]int{"kind": 5, "keys": 2, "auth": 1, "bytes": 1, "pin": 1, "zones": 4}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	// C11
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPMul", Cfg: map[string]int{"r": 2, "n": 3, "c": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPMul", Cfg: map[string]int{"r": 1, "n": 2, "c": 5}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPBinary", Cfg: map[string]int{"r": 2, "n": 3, "c": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPBinary", Cfg: map[string]int{"r": 1, "n": 2, "c": 5}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPBinary", Cfg: map[string]int{"r": 2, "n": 3, "c": 2, "wide": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPMul128", Cfg: map[string]int{"r": 2, "n": 2, "c": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPAdd", Tier: "q", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPEncode", Tier: "q", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPRandom", Tier: "q", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPMul", Cfg: map[string]int{"r": 4, "n": 5, "c": 4}, Tier: "t", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPBinary", Cfg: map[string]int{"r": 4, "n": 5, "c": 4}, Tier: "t", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPBinary", Cfg: map[string]int{"r": 3, "n": 5, "c": 4, "wide": 1}, Tier: "t", Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPMul128", Cfg: map[string]int{"r": 3, "n": 3, "c": 3}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPEncode", Cfg: map[string]int{"r": 6, "c": 6}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPCorrect", Cfg: map[string]int{"r": 2, "c": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPVerify", Cfg: map[string]int{"r": 2, "c": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPDigest", Cfg: map[string]int{"r": 1, "c": 1}, Tier: "q", Reach: []string{"end"}, Unwind: 6000},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPGauss", Cfg: map[string]int{}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPCorrect128", Cfg: map[string]int{"r": 2, "c": 2, "branchms": 60}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPVerify128", Cfg: map[string]int{"r": 2, "c": 2, "branchms": 60}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPDigest128", Cfg: map[string]int{"r": 1, "c": 1}, Tier: "q", Reach: []string{"end"}, Unwind: 6000},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPGauss128", Cfg: map[string]int{}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPCorrect", Cfg: map[string]int{"r": 3, "c": 1, "n": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPCorrect", Cfg: map[string]int{"r": 1, "c": 2, "queries": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPCorrect128", Cfg: map[string]int{"r": 1, "c": 2, "queries": 2, "branchms": 60}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPCorrect", Cfg: map[string]int{"r": 3, "c": 3, "n": 3}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPVerify", Cfg: map[string]int{"r": 3, "c": 2, "n": 3}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPCorrect128", Cfg: map[string]int{"r": 3, "c": 2, "n": 3, "branchms": 60}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPVerify128", Cfg: map[string]int{"r": 3, "c": 1, "n": 3, "branchms": 60}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C08", Pkg: "vpharness/c08", Func: "VPDigest", Cfg: map[string]int{"r": 3, "c": 3}, Tier: "t", Reach: []string{"end"}, Unwind: 6000, Timeout: 900},
	{Prop: "C09", Pkg: "vpharness/c09", Func: "VPCode", Cfg: map[string]int{"t": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C09", Pkg: "vpharness/c09", Func: "VPCode", Cfg: map[string]int{"t": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C09", Pkg: "vpharness/c09", Func: "VPCode", Cfg: map[string]int{"t": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C09", Pkg: "vpharness/c09", Func: "VPCode", Cfg: map[string]int{"t": 5}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C09", Pkg: "vpharness/c09", Func: "VPMajority", Cfg: map[string]int{"n": 3}, Tier: "q", Reach: []string{"rejected", "decoded"}},
	{Prop: "C09", Pkg: "vpharness/c09", Func: "VPMajority", Cfg: map[string]int{"n": 5}, Tier: "q", Reach: []string{"rejected", "decoded"}},
	{Prop: "C09", Pkg: "vpharness/c09", Func: "VPMajority", Cfg: map[string]int{"n": 7}, Tier: "t", Reach: []string{"rejected", "decoded"}, Timeout: 900},
	{Prop: "C09", Pkg: "vpharness/c08", Func: "VPAmplify", Cfg: map[string]int{"r": 1, "c": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C09", Pkg: "vpharness/c08", Func: "VPAmplify", Cfg: map[string]int{"r": 2, "c": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C09", Pkg: "vpharness/c08", Func: "VPAmplify", Cfg: map[string]int{"r": 1, "c": 1, "t": 2, "queries": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C09", Pkg: "vpharness/c08", Func: "VPAmplifyVerify", Cfg: map[string]int{"r": 2, "c": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C09", Pkg: "vpharness/c08", Func: "VPAmplifyVerify", Cfg: map[string]int{"r": 2, "c": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C09", Pkg: "vpharness/c08", Func: "VPAmplifyVerify", Cfg: map[string]int{"r": 2, "c": 1, "allbad": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C09", Pkg: "vpharness/c08", Func: "VPAmplifyCount", Cfg: map[string]int{}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C10", Pkg: "vpharness/c10", Func: "VPCorrect", Cfg: map[string]int{"n": 4}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C10", Pkg: "vpharness/c10", Func: "VPCorrect", Cfg: map[string]int{"n": 3, "square": 0}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C10", Pkg: "vpharness/c10", Func: "VPCorrect", Cfg: map[string]int{"r": 3, "c": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C10", Pkg: "vpharness/c10", Func: "VPCorrect", Cfg: map[string]int{"r": 1, "c": 2, "queries": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C10", Pkg: "vpharness/c10", Func: "VPVerify", Cfg: map[string]int{"r": 2, "c": 2}, Tier: "q", Reach: []string{"accepted", "rejected"}},
	{Prop: "C10", Pkg: "vpharness/c10", Func: "VPVerify", Cfg: map[string]int{"r": 1, "c": 3}, Tier: "q", Reach: []string{"accepted", "rejected"}},
	{Prop: "C10", Pkg: "vpharness/c10", Func: "VPRefuse", Cfg: map[string]int{"r": 2, "c": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C10", Pkg: "vpharness/c10", Func: "VPVerify", Cfg: map[string]int{"r": 3, "c": 2}, Tier: "t", Reach: []string{"accepted", "rejected"}, Timeout: 900},
	{Prop: "C10", Pkg: "vpharness/c10", Func: "VPCorrect", Cfg: map[string]int{"r": 4, "c": 4}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C10", Pkg: "vpharness/c10", Func: "VPCorrect", Cfg: map[string]int{"n": 9}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPPoint", Cfg: map[string]int{"r": 1, "c": 2}, Tier: "q", Reach: []string{"error", "value"}},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPPoint", Cfg: map[string]int{"r": 2, "c": 2, "servers": 3, "bs": 1}, Tier: "q", Reach: []string{"error", "value"}},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPMerkle", Cfg: map[string]int{"bs": 44, "plen": 40}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPMerkle", Cfg: map[string]int{"bs": 10, "plen": 8}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPProof", Cfg: map[string]int{"n": 42}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPUnpad", Cfg: map[string]int{"n": 6}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPPredicate", Cfg: map[string]int{"auth": 0}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPPredicate", Cfg: map[string]int{"auth": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c08", Func: "VPMalformed", Cfg: map[string]int{"c": 2, "scheme": 0}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c08", Func: "VPMalformed", Cfg: map[string]int{"c": 2, "scheme": 1, "branchms": 60}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c08", Func: "VPMalformedAmplify", Cfg: map[string]int{"c": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c08", Func: "VPMalformedAmplify", Cfg: map[string]int{"c": 2, "t": 0}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c10", Func: "VPMalformed", Cfg: map[string]int{"r": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c10", Func: "VPMalformed", Cfg: map[string]int{"r": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPPoint", Cfg: map[string]int{"r": 3, "c": 2, "servers": 4, "bs": 2}, Tier: "t", Reach: []string{"error", "value"}, Timeout: 900},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPMerkle", Cfg: map[string]int{"bs": 108, "plen": 104}, Tier: "t", Reach: []string{"end"}, Timeout: 900, Unwind: 200},
	{Prop: "C04", Pkg: "vpharness/c04", Func: "VPProof", Cfg: map[string]int{"n": 110}, Tier: "t", Reach: []string{"end"}, Timeout: 900, Unwind: 200},
	{Prop: "C04", Pkg: "vpharness/c08", Func: "VPMalformedAmplify", Cfg: map[string]int{"c": 2, "t": 2}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C04", Pkg: "vpharness/c10", Func: "VPMalformed", Cfg: map[string]int{"r": 3}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C14", Pkg: "vpharness/c14", Func: "VPSeeds", Cfg: map[string]int{"bits": 2, "outs": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C14", Pkg: "vpharness/c14", Func: "VPMasked", Cfg: map[string]int{"bits": 1, "outs": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C14", Pkg: "vpharness/c14", Func: "VPMasked", Cfg: map[string]int{"bits": 1, "outs": 5}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C14", Pkg: "vpharness/c14", Func: "VPMasked", Cfg: map[string]int{"bits": 1, "outs": 17}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C14", Pkg: "vpharness/c14", Func: "VPMasked", Cfg: map[string]int{"bits": 2, "outs": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C14", Pkg: "vpharness/c14", Func: "VPMasked", Cfg: map[string]int{"bits": 2, "outs": 1, "levels": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C14", Pkg: "vpharness/c14", Func: "VPMasked", Cfg: map[string]int{"bits": 3, "outs": 5}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C14", Pkg: "vpharness/c14", Func: "VPMasked", Cfg: map[string]int{"bits": 1, "outs": 10}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C14", Pkg: "vpharness/c14", Func: "VPMasked", Cfg: map[string]int{"bits": 1, "outs": 33}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	{Prop: "C14", Pkg: "vpharness/c14", Func: "VPMasked", Cfg: map[string]int{"bits": 3, "outs": 1, "levels": 1}, Tier: "t", Reach: []string{"end"}, Timeout: 900},
	// C15
	{Prop: "C15", Pkg: "vpmirror/grpcclient", Func: "VPDispatch", Cfg: map[string]int{"servers": 4, "sched": 1, "maporder": 1, "preempt": 2}, Tier: "t", Timeout: 850, Reach: []string{"end"}},
	{Prop: "C15", Pkg: "vpmirror/grpcclient", Func: "VPInfo", Cfg: map[string]int{"servers": 5, "maporder": 1}, Tier: "t", Timeout: 850, Reach: []string{"accepted", "refused"}},
	{Prop: "C15", Pkg: "vpmirror/manager", Func: "VPDispatch", Cfg: map[string]int{"servers": 4, "sched": 1, "maporder": 1, "preempt": 2}, Tier: "t", Timeout: 850, Reach: []string{"end"}},
	{Prop: "C15", Pkg: "vpmirror/manager", Func: "VPInfo", Cfg: map[string]int{"servers": 5, "maporder": 1}, Tier: "t", Timeout: 850, Reach: []string{"accepted", "refused"}},
	{Prop: "C15", Pkg: "vpmirror/simclient", Func: "VPDispatch", Cfg: map[string]int{"servers": 4, "sched": 1, "maporder": 1, "preempt": 2}, Tier: "t", Timeout: 850, Reach: []string{"end"}},
	{Prop: "C15", Pkg: "vpmirror/simclient", Func: "VPInfo", Cfg: map[string]int{"servers": 5, "maporder": 1}, Tier: "t", Timeout: 850, Reach: []string{"accepted", "refused"}},
	{Prop: "C15", Pkg: "vpmirror/grpcclient", Func: "VPDispatch", Cfg: map[string]int{"servers": 2, "sched": 1, "maporder": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C15", Pkg: "vpmirror/grpcclient", Func: "VPDispatch", Cfg: map[string]int{"servers": 3, "sched": 1, "maporder": 1, "preempt": 1, "extra": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C15", Pkg: "vpmirror/grpcclient", Func: "VPInfo", Cfg: map[string]int{"servers": 2, "maporder": 1}, Tier: "q", Reach: []string{"accepted", "refused"}},
	{Prop: "C15", Pkg: "vpmirror/grpcclient", Func: "VPInfo", Cfg: map[string]int{"servers": 3, "maporder": 1, "extra": 1}, Tier: "q", Reach: []string{"accepted", "refused"}},
	{Prop: "C15", Pkg: "vpmirror/manager", Func: "VPDispatch", Cfg: map[string]int{"servers": 2, "sched": 1, "maporder": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C15", Pkg: "vpmirror/manager", Func: "VPDispatch", Cfg: map[string]int{"servers": 3, "sched": 1, "maporder": 1, "preempt": 1, "extra": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C15", Pkg: "vpmirror/manager", Func: "VPInfo", Cfg: map[string]int{"servers": 2, "maporder": 1}, Tier: "q", Reach: []string{"accepted", "refused"}},
	{Prop: "C15", Pkg: "vpmirror/manager", Func: "VPInfo", Cfg: map[string]int{"servers": 3, "maporder": 1, "extra": 1}, Tier: "q", Reach: []string{"accepted", "refused"}},
	{Prop: "C15", Pkg: "vpmirror/simclient", Func: "VPDispatch", Cfg: map[string]int{"servers": 2, "sched": 1, "maporder": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C15", Pkg: "vpmirror/simclient", Func: "VPDispatch", Cfg: map[string]int{"servers": 3, "sched": 1, "maporder": 1, "preempt": 1, "extra": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C15", Pkg: "vpmirror/simclient", Func: "VPInfo", Cfg: map[string]int{"servers": 2, "maporder": 1}, Tier: "q", Reach: []string{"accepted", "refused"}},
	{Prop: "C15", Pkg: "vpmirror/simclient", Func: "VPInfo", Cfg: map[string]int{"servers": 3, "maporder": 1, "extra": 1}, Tier: "q", Reach: []string{"accepted", "refused"}},
	// C16
	{Prop: "C16", Pkg: "vpmirror/grpcserver", Func: "VPConcurrent", Cfg: map[string]int{"sched": 1, "preempt": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C16", Pkg: "vpmirror/simserver", Func: "VPConcurrent", Cfg: map[string]int{"sched": 1, "preempt": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C16", Pkg: "vpmirror/simserver", Func: "VPConcurrent", Cfg: map[string]int{"sched": 1, "preempt": 1, "auth": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C16", Pkg: "vpmirror/grpcmain", Func: "VPServer", Cfg: map[string]int{"sched": 1, "preempt": 1, "clients": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C16", Pkg: "vpmirror/grpcmain", Func: "VPServer", Cfg: map[string]int{"sched": 1, "preempt": 2, "clients": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C16", Pkg: "vpmirror/grpcmain", Func: "VPServer", Cfg: map[string]int{"sched": 1, "preempt": 2, "clients": 2}, Tier: "t", Timeout: 1800, Reach: []string{"end"}},
	{Prop: "C16", Pkg: "vpmirror/grpcmain", Func: "VPServer", Cfg: map[string]int{"sched": 1, "preempt": 1, "clients": 3, "stop": 1, "scheme": 3}, Tier: "t", Timeout: 1800, Reach: []string{"end"}},
	{Prop: "C16", Pkg: "vpmirror/grpcserver", Func: "VPConcurrent", Cfg: map[string]int{"sched": 1, "preempt": 2, "auth": 1}, Tier: "t", Timeout: 1800, Reach: []string{"end"}},
	{Prop: "C16", Pkg: "vpmirror/simserver", Func: "VPConcurrent", Cfg: map[string]int{"sched": 1, "preempt": 2, "clients": 3}, Tier: "t", Timeout: 1800, Reach: []string{"end"}},
	{Prop: "C16", Pkg: "vpmirror/grpcmain", Func: "VPServer", Cfg: map[string]int{"sched": 1, "preempt": 2, "clients": 1, "stop": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C16", Pkg: "vpmirror/grpcmain", Func: "VPServer", Cfg: map[string]int{"sched": 1, "preempt": 2, "clients": 2, "stop": 1, "scheme": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 1, "cols": 128, "bs": 1, "servers": 2, "fixidx": 127}, Tier: "q", Unwind: 300, Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 1, "cols": 256, "bs": 1, "servers": 2, "fixidx": 3}, Tier: "q", Unwind: 600, Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 2, "cols": 8, "bs": 1, "servers": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C01", Pkg: "vpharness/c01", Func: "VPPoint", Cfg: map[string]int{"rows": 1, "cols": 16, "bs": 1, "servers": 3, "bytes": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPLong", Cfg: map[string]int{"bits": 256, "outs": 1}, Tier: "q", Unwind: 600, Reach: []string{"end"}},
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPLong", Cfg: map[string]int{"bits": 48, "outs": 5, "seed": 7}, Tier: "q", Unwind: 600, Reach: []string{"end"}},
	{Prop: "C05", Pkg: "vpharness/c05", Func: "VPLong", Cfg: map[string]int{"bits": 255, "outs": 5, "seed": 3}, Tier: "t", Timeout: 800, Unwind: 600, Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPWide", Tier: "q", Unwind: 300000, Reach: []string{"end"}},
	{Prop: "C11", Pkg: "vpharness/c11", Func: "VPWide", Cfg: map[string]int{"wide": 1}, Tier: "q", Unwind: 300000, Reach: []string{"end"}},
	{Prop: "C18", Pkg: "vpmirror/pgp", Func: "VPSelect", Cfg: map[string]int{"keys": 3, "emails": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C18", Pkg: "vpmirror/pgp", Func: "VPSelect", Cfg: map[string]int{"keys": 2, "emails": 3, "two": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C18", Pkg: "vpmirror/pgp", Func: "VPDisk", Cfg: map[string]int{"keys": 2}, Tier: "q", Unwind: 10000, Reach: []string{"end"}},
	{Prop: "C18", Pkg: "vpmirror/pgp", Func: "VPDisk", Cfg: map[string]int{"keys": 3, "sizes": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C18", Pkg: "vpmirror/pgp", Func: "VPRecover", Cfg: map[string]int{"keys": 2, "two": 1}, Tier: "q", Reach: []string{"found", "refused"}},
	{Prop: "C18", Pkg: "vpmirror/pgp", Func: "VPRecover", Cfg: map[string]int{"keys": 2, "two": 0, "damage": 4}, Tier: "q", Reach: []string{"found", "refused"}},
	{Prop: "C18", Pkg: "vpmirror/pgp", Func: "VPRecover", Cfg: map[string]int{"keys": 3, "two": 1}, Tier: "t", Timeout: 800, Reach: []string{"found", "refused"}},
	{Prop: "C18", Pkg: "vpmirror/pgp", Func: "VPSelect", Cfg: map[string]int{"keys": 4, "emails": 2}, Tier: "t", Timeout: 800, Reach: []string{"end"}},
	{Prop: "C15", Pkg: "vpharness/c15", Func: "VPOrder", Cfg: map[string]int{"scheme": 0, "servers": 2}, Tier: "q", Reach: []string{"accepted"}},
	{Prop: "C15", Pkg: "vpharness/c15", Func: "VPOrder", Cfg: map[string]int{"scheme": 0, "servers": 4}, Tier: "q", Reach: []string{"accepted"}},
	{Prop: "C15", Pkg: "vpharness/c15", Func: "VPOrder", Cfg: map[string]int{"scheme": 1, "servers": 2}, Tier: "q", Reach: []string{"accepted"}},
	{Prop: "C15", Pkg: "vpharness/c15", Func: "VPOrder", Cfg: map[string]int{"scheme": 1, "servers": 2, "avg": 1}, Tier: "q", Reach: []string{"accepted", "rejected"}},
	{Prop: "C15", Pkg: "vpharness/c15", Func: "VPOrder", Cfg: map[string]int{"scheme": 2, "servers": 2}, Tier: "q", Reach: []string{"accepted", "rejected"}},
	{Prop: "C15", Pkg: "vpharness/c15", Func: "VPOrder", Cfg: map[string]int{"scheme": 2, "servers": 2, "avg": 1}, Tier: "q", Reach: []string{"accepted", "rejected"}},
	{Prop: "C15", Pkg: "vpharness/c15", Func: "VPOrder", Cfg: map[string]int{"scheme": 2, "servers": 2, "keys": 1}, Tier: "t", Reach: []string{"accepted", "rejected"}, Timeout: 800},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPPredicate", Cfg: map[string]int{"kind": 0, "maporder": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPPredicate", Cfg: map[string]int{"kind": 1, "maporder": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPPredicate", Cfg: map[string]int{"kind": 2, "maporder": 1, "auth": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPPredicate", Cfg: map[string]int{"kind": 3, "maporder": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPPredicate", Cfg: map[string]int{"kind": 4, "maporder": 1, "auth": 1}, Tier: "q", Reach: []string{"end", "none"}},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPPredicate", Cfg: map[string]int{"kind": 5, "maporder": 1}, Tier: "q", Reach: []string{"end", "none"}},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPRetrieve", Cfg: map[string]int{"servers": 3, "maporder": 1}, Tier: "q", Reach: []string{"end", "missing"}},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPRetrieve", Cfg: map[string]int{"servers": 2, "maporder": 1}, Tier: "q", Reach: []string{"end", "missing"}},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPRetrieve", Cfg: map[string]int{"servers": 3, "auth": 1, "maporder": 1}, Tier: "q", Reach: []string{"end", "missing"}},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPRetrieve", Cfg: map[string]int{"servers": 2, "auth": 1, "maporder": 1, "rows": 1, "cols": 2}, Tier: "q", Reach: []string{"end", "missing"}},
	{Prop: "C20", Pkg: "vpmirror/grpcask", Func: "VPRefuse", Cfg: map[string]int{}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/grpcmain", Func: "VPStart", Cfg: map[string]int{}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/web", Func: "VPCount", Cfg: map[string]int{"kind": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/web", Func: "VPCount", Cfg: map[string]int{"kind": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/web", Func: "VPCount", Cfg: map[string]int{"kind": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/web", Func: "VPFail", Cfg: map[string]int{"kind": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/web", Func: "VPFail", Cfg: map[string]int{"kind": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/web", Func: "VPFail", Cfg: map[string]int{"kind": 3, "year": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/web", Func: "VPRetrieve", Cfg: map[string]int{}, Tier: "q", Reach: []string{"end", "missing"}},
	{Prop: "C20", Pkg: "vpmirror/web", Func: "VPRetrieve", Cfg: map[string]int{"rows": 2}, Tier: "q", Reach: []string{"end", "missing"}},
	{Prop: "C20", Pkg: "vpmirror/web", Func: "VPForms", Cfg: map[string]int{}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/interactive", Func: "VPStats", Cfg: map[string]int{"kind": 1}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/interactive", Func: "VPStats", Cfg: map[string]int{"kind": 2}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/interactive", Func: "VPStats", Cfg: map[string]int{"kind": 3}, Tier: "q", Reach: []string{"end"}},
	{Prop: "C20", Pkg: "vpmirror/interactive", Func: "VPStats", Cfg: map[string]int{"kind": 4}, Tier: "q", Reach: []string{"end", "none"}},
	{Prop: "C20", Pkg: "vpmirror/interactive", Func: "VPStats", Cfg: map[string]int{"kind": 5}, Tier: "q", Reach: []string{"end", "none"}},
	{Prop: "C20", Pkg: "vpmirror/interactive", Func: "VPKey", Cfg: map[string]int{}, Tier: "q", Reach: []string{"end", "missing"}},
	{Prop: "C20", Pkg: "vpmirror/interactive", Func: "VPKey", Cfg: map[string]int{"rows": 3}, Tier: "q", Reach: []string{"end", "missing"}},
}

// what every check assumes, by property ("" for all)
var assumptions = map[string][]string{
	"": {
		"the engine's interpretation of Go SSA and of the clang IR of lib/matrix/matrix.c (checked by replaying every counterexample natively; a model that does not reproduce is reported as inconclusive, never as a violation)",
		"the standard library and third-party packages replaced by stubs under overlay/vpstub behave as their documentation says",
		"z3 and cvc5 answer sat/unsat correctly",
		"goroutines switch only at the points where the engine lets them (channel, mutex, WaitGroup, map, explicit yields and, within the 'preempt' bound, between instructions of the code under check)",
	},
	"C01": {"AES (inside the DPF) is a fixed unknown permutation per key (uninterpreted function)", "randomness is an arbitrary byte string"},
	"C02": {"AES (inside the DPF) is an uninterpreted function", "the random source is uniform: an output that is a bijection of fresh random bytes is uniform"},
	"C03": {"BLAKE3 is an injective uninterpreted function on the inputs of one run (collision resistance)"},
	"C04": {"BLAKE3 and the group operations are uninterpreted", "answers are at most as long as the listed bounds"},
	"C05": {"AES is an uninterpreted function per key"},
	"C06": {"AES is an uninterpreted function per key", "BLAKE3 is an uninterpreted function", "gob hands the decoder the value that was encoded"},
	"C07": {"the tag keys are arbitrary field elements unknown to the servers; the bound on forgeries is the counting argument in DESIGN.md"},
	"C08": {"matrix A and the secret are arbitrary (any value the random source can give)", "the Gaussian sampler draws from its table; noise beyond the bound is outside the property"},
	"C09": {"as C08 for the repetitions"},
	"C10": {"the group is modelled by its algebra: elements are formal combinations over the scalars actually used, with decoding of unknown bytes giving an arbitrary element or an error", "BLAKE3 is an injective uninterpreted function"},
	"C11": {"the C kernels are taken from clang's LLVM IR at -O1 without vectorisation (the shipped build is -O3 -march=native: the compiler is trusted)"},
	"C12": {"rejection loops draw at most two rejected values"},
	"C13": {"BLAKE3 is a fixed function: the placement of the listed e-mail addresses is the real one"},
	"C14": {"AES is an uninterpreted function per key: equal inputs give equal outputs and nothing else is known"},
	"C15": {"the transport delivers a request to the server whose connection it is sent on and returns its answer (stub of gRPC)"},
	"C18": {"OpenPGP parsing and serialization are replaced by a format that names the key (stub of openpgp); the selection of the primary identity is the library's own code", "gob hands the decoder the value that was encoded"},
	"C20": {"function shares add up to what C05 shows (contracts of GenerateTreePF and EvaluatePF)", "the terminal, HTTP, template and gRPC libraries call the program as documented (stubs)", "finding a key in a record is replaced by an arbitrary answer (its code is checked in C18)"},
	"C16": {"gRPC's GracefulStop waits for requests in progress and refuses later ones, Stop does neither (stub of gRPC)"},
}

// what lies within each claim; the exact sizes are the "harnesses" list of the evidence
var bounds = map[string]string{
	"C01": "databases of at most 3x9 records of at most 3 bytes with 2 to 5 servers and every index symbolic; 1x129 (thorough 1x260) with one index; all record contents, record lengths and client randomness symbolic",
	"C02": "up to 5 servers and 40 columns, every index and all randomness symbolic",
	"C03": "Merkle trees of at most 5 records of at most 2 bytes; answers of every server except one arbitrary",
	"C04": "answers of up to 3 rows / 4 servers / 5 repetitions of every length up to a few bytes beyond the honest one, contents arbitrary",
	"C05": "inputs of at most 3 symbolic bits (longer concrete inputs with concrete AES), payloads of at most 8 components",
	"C06": "directories of 2 or 3 keys with symbolic attributes; query strings of at most 3 characters; four time zones",
	"C07": "one or two queries, five tags, server answers arbitrary field elements or arbitrary words",
	"C08": "databases up to 3x3, secret dimension up to 3, noise up to the bound, all values symbolic",
	"C09": "codes with t up to 5, databases up to 2x2, one or two queries",
	"C10": "databases up to 4x4 with symbolic bits and symbolic position; answers of up to 3 arbitrary elements",
	"C11": "matrices up to 5 in each dimension with symbolic contents; dimensions on the wire 32 bits wide",
	"C12": "up to 24 words/bits/elements; positions below one million",
	"C13": "directories of 2, 3, 20 and 30 keys with symbolic bodies in symbolic insertion and map iteration order",
	"C14": "inputs of at most 3 bits, payloads of up to 33 components",
	"C15": "2 to 4 servers (5 for descriptions), every map iteration order, every order of answers, at most 2 preemptions",
	"C18": "dumps of 2 to 4 keys with one or two identities, symbolic creation times, every order, split over two files; files of 2 or 3 keys around the size limit of 8192 bytes; records of 2 or 3 keys",
	"C20": "two keys with symbolic addresses of 1 to 3 bytes and algorithms, questions of 2 symbolic characters; databases of up to 2 rows of 2 records with every address of the list; 2 or 3 servers, 2 to 4 for the server program; every map order",
	"C16": "at most 3 concurrent requests, at most 3 preemptions, stop request at every point, abandoned and malformed requests",
}
