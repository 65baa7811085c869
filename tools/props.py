import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ACC=[("accumulator","fold pairs (primary, carry) of floats, one pair per bin, starting at the bin of the largest number seen","include/binned.h, src/binned")]
T="The existing tests compare a few fixed data families (mostly folds 2 to 4, unit strides plus one, a handful of lengths) under a few reorderings; "
p("P01","Adding numbers one at a time gives an accumulator independent of their order",
 "Whatever the order in which the same numbers are added to a binned accumulator (real or complex, single or double, any fold, packed or strided), it ends up representing the same bin totals and converts to the same bits. Numbers that arrive later never change what earlier larger ones left, except that bins below the fold are given up when a larger number raises the top bin.",
 ["inputs","histories"],"every finite sequence of numbers, every permutation of it, every fold, type and layout; including numbers on bin boundaries, subnormals and the largest numbers",
 T+"no finite sample of permutations covers boundary exponents, ties and every fold.",
 ["src/binned/dmdadd.c","src/binned/dmdupdate.c","src/binned/dmddeposit.c","src/binned/dmrenorm.c","src/binned/deposit.py","src/binned/smsadd.c","src/binned/zmzadd.c","src/binned/cmcadd.c"],
 [("bins at fixed exponent boundaries","src/binned/dindex.c, dmbins.c"),("raising the top bin shifts pairs down","src/binned/dmdupdate.c"),("error-free slicing with the last bit set against ties","src/binned/deposit.py"),("carry propagation","src/binned/dmrenorm.c")],ACC,["binned_*add, binned_*conv"])
p("P02","Merging accumulators is associative, commutative and equal to adding the numbers",
 "Splitting the same numbers over any number of accumulators and merging these in any tree, singly or as whole vectors with any strides, gives an accumulator that represents the same bin totals, and converts to the same bits, as adding all numbers to one accumulator. Merging an empty accumulator changes nothing, and merging an accumulator into itself doubles it.",
 ["inputs","histories","schedules"],"every partition of every finite multiset of numbers, every merge tree, every fold, type, layout and stride",
 T+"merge trees of accumulators with different top bins, carries and layouts are sampled hardly at all.",
 ["src/binned/dmdmadd.c","src/binned/smsmadd.c","src/binned/zmzmadd.c","src/binned/cmcmadd.c","src/binned/dbdbaddv.c","src/binned/dbdbadd.c"],
 [("aligning bins of the two operands before adding","src/binned/dmdmadd.c"),("renormalising after the merge","src/binned/dmrenorm.c")],ACC,["binned_*add between accumulators, binned_*addv"])
p("P03","Vector sums and absolute sums equal adding the elements one by one",
 "Accumulating a vector (sum, or sum of absolute values; real or complex) of any length with any positive stride into any accumulator, empty or not, leaves exactly what adding the elements one at a time leaves. This holds for any cut of the vector into pieces and any order.",
 ["inputs","histories"],"every vector, length, stride, fold, prior accumulator and partition",
 T+"remainder loops, fold specialisations, block boundaries and strides multiply to far more cases than the tests sample.",
 ["src/binnedBLAS/dmdsum.ccog","src/binnedBLAS/depositSum.py","src/binnedBLAS/depositASum.py","src/binnedBLAS/zmzsum.ccog","src/binnedBLAS/dmzasum.ccog","src/gen/vectorizations.py","src/gen/generate.py"],
 [("blocked loop: maximum, raise, deposit, renormalise","src/binnedBLAS/depositSum.py"),("vectorised deposit with several partial accumulators","src/gen/vectorizations.py")],ACC,["binnedBLAS_*sum, binnedBLAS_*asum"])
p("P04","Dot products equal adding the rounded products one by one",
 "A dot product (real, complex, complex conjugated) accumulates exactly the products of the elements, each rounded once in working precision, in whatever order; complex products contribute their two real and two imaginary terms separately, with the first operand conjugated in the conjugated form. Any lengths, strides, folds and prior accumulators are allowed.",
 ["inputs","histories"],"every pair of vectors, length, pair of strides, fold, prior accumulator and partition",
 T+"sign placement in complex terms, remainder loops and block limits are reached only for some lengths and data.",
 ["src/binnedBLAS/dmddot.ccog","src/binnedBLAS/zmzdotu.ccog","src/binnedBLAS/zmzdotc.ccog","src/binnedBLAS/cmcdotu.ccog","src/binnedBLAS/depositDot.py","src/binnedBLAS/depositDotU.py","src/binnedBLAS/depositDotC.py"],
 [("blocked loop: maximum of products, raise, deposit, renormalise","src/binnedBLAS/depositM.py, damaxm.ccog"),("two deposits per product pair in the complex case","src/binnedBLAS/depositDotU.py")],ACC,["binnedBLAS_*dot*"])
p("P05","Scaled sums of squares and 2-norms are order independent, in range and accurate",
 "A scaled sum of squares holds, under a scale that depends only on the largest magnitude seen so far, exactly the rounded squares of the scaled numbers, whatever their order, stride and grouping into calls. The 2-norm is the same for every order, does not overflow or underflow when the true norm is representable, and is as accurate as the conversion of the accumulator.",
 ["inputs","histories"],"every vector over the whole exponent range, length, stride, fold and sequence of calls",
 T+"scales change only when magnitudes cross particular powers of two between calls.",
 ["src/binnedBLAS/dmdssq.ccog","src/binnedBLAS/depositSSq.py","src/binnedBLAS/dmzssq.ccog","src/binned/dscale.c","src/binned/dmdrescale.c","src/reproBLAS/dnrm2.c","src/reproBLAS/rdnrm2.c"],
 [("scale from the maximum magnitude","src/binned/dscale.c"),("shifting the stored sum by whole bins when the scale grows","src/binned/dmdrescale.c")],ACC+[("scale","power of two by which numbers are divided before squaring","src/binnedBLAS/dmdssq.ccog")],["binnedBLAS_*ssq, reproBLAS_*nrm2"])
p("P06","Scaled sums of squares of parts combine to the same result in any tree",
 "Combining scaled sums of squares of the parts of a vector in any order and tree gives the same scale as the whole vector and a sum that represents every part exactly as if rescaled to that scale. Parts without elements do not matter.",
 ["inputs","histories","schedules"],"every partition of a vector, every combination tree, all magnitude relations between the parts",
 "No existing test combines scaled partial sums of squares with different scales.",
 ["src/binned/dmdmaddsq.c","src/binned/dbdbaddsq.c","src/binned/smsmaddsq.c","src/binned/dmdrescale.c","src/binned/smsrescale.c"],
 [("rescaling the smaller operand to the larger scale","src/binned/dmdmaddsq.c")],ACC,["binned_*addsq"])
p("P07","Results are within the documented error bound, and the bound functions return it",
 "The result of a sum or dot product differs from the exact sum of its terms by at most the documented bound: number of terms times bin width to the power (1 - fold) times the largest magnitude, plus a few units roundoff of the sum. Converting an accumulator errs by at most a few units roundoff of what it holds, and the functions that return the bound return that value for all arguments.",
 ["inputs"],"every vector, in particular with massive cancellation, every fold; every argument of the bound function",
 T+"the bound is tested against the library's own formula on a few data families.",
 ["src/binned/ddmconv.c","src/binned/ssmconv.c","src/binned/dbdconv.c","src/binned/dbbound.c","src/binned/sbbound.c","src/binned/deposit.py"],
 [("summing bins from the largest down with scaling against overflow","src/binned/ddmconv.c"),("bound formula","src/binned/dbbound.c")],ACC,["binned_*conv, binned_*bound, reproBLAS_*"])
p("P08","Infinities and NaNs propagate independently of order",
 "Any NaN, or infinities of both signs, among the numbers makes the result NaN; infinities of one sign make it that infinity; and this depends neither on order, nor on how the numbers are split and merged, nor on how large the finite ones are. Accumulators that have met one stay that way under every further operation.",
 ["inputs","histories"],"every placement of non-finite values in every operation, with every finite neighbour, including finite numbers whose plain sum overflows",
 T+"exceptional values are placed at a few positions of a few vectors.",
 ["src/binned/dmdadd.c","src/binned/dmddeposit.c","src/binned/dmdmadd.c","src/binnedBLAS/depositM.py","src/binnedBLAS/depositSum.py","src/binned/ddmconv.c"],
 [("non-finite values kept in the first primary","src/binned/dmddeposit.c, dmdupdate.c"),("vector kernels that meet a non-finite maximum","src/binnedBLAS/depositM.py")],ACC,["all accumulating operations"])
p("P09","No capacity is exceeded however many numbers are accumulated",
 "Sums of very many numbers, in one call, over many calls or by repeated merging, of the largest magnitude a bin takes and all of one sign, lose nothing: the accumulator holds the exact bin totals. In particular no more numbers are deposited between renormalisations than a bin has room for.",
 ["inputs","histories"],"every length up to the documented capacity, every block boundary, worst-case data",
 "Tests use short vectors or random data, which never fill a bin between two renormalisations.",
 ["src/binnedBLAS/depositSum.py","src/binnedBLAS/depositM.py","src/common/blockSize.py","src/binned/dmrenorm.c","include/binned.h","src/binnedBLAS/zmzdotu.ccog"],
 [("block size at most the endurance","src/binnedBLAS/*.ccog, src/common/blockSize.py"),("carry propagation","src/binned/dmrenorm.c")],ACC,["binnedBLAS_*sum, *asum, *dot*, binned_*deposit"])
p("P10","Sums are exact in bin terms up to both ends of the exponent range",
 "Numbers near the overflow threshold are summed without intermediate overflow: a sum that is representable is returned even if partial sums are not, and infinity is returned only if the true sum (within the bound) is out of range. Subnormal numbers and zeros of either sign are accumulated as exactly as others, as far as the lowest bin reaches.",
 ["inputs"],"numbers in the first and the last bins, largest and subnormal numbers, any order",
 T+"few of them lie in the first or last bin, where the representation is different.",
 ["src/binned/dmddeposit.c","src/binned/ddmconv.c","src/binned/dindex.c","src/binned/dmbins.c","src/binned/deposit.py","src/binned/dmindex0.c"],
 [("first bin stored scaled down","src/binned/dmbins.c, deposit.py (compression/expansion)"),("bins past the last repeat it","src/binned/dmbins.c")],ACC,["binned_*add, binned_*conv, binnedBLAS_*"])
p("P11","Matrix-vector products are reproducible inner products in every orientation",
 "A reproducible matrix-vector product gives, for every row- or column-major matrix, transposition, leading dimension, stride, size and coefficients, per element the accumulated rounded products (scaled vector element times matrix element) on top of what was there; no other element is touched. The result does not depend on blocking, and zero sizes or a zero coefficient leave the accumulated part unchanged.",
 ["inputs","configurations"],"every shape, orientation, leading dimension, stride, coefficient pair and element value; binned and floating point results",
 T+"many orientation x type x coefficient combinations (e.g. complex, conjugated, column-major, non-square) are not tested.",
 ["src/binnedBLAS/dbdgemv.ccog","src/binnedBLAS/zbzgemv.ccog","src/binnedBLAS/sbsgemv.ccog","src/binnedBLAS/cbcgemv.ccog","src/reproBLAS/rdgemv.c","src/reproBLAS/rzgemv.c"],
 [("blocks of rows and columns fed to dot kernels","src/binnedBLAS/dbdgemv.ccog"),("conversion of y times beta to accumulators and back","src/reproBLAS/rdgemv.c")],ACC,["binnedBLAS_*gemv, reproBLAS_*gemv"])
p("P12","Matrix-matrix products are reproducible inner products in every orientation",
 "A reproducible matrix-matrix product gives, for every storage order, pair of transpositions, leading dimensions, sizes and coefficients, per element the accumulated rounded products (coefficient times element of the first, times element of the second matrix) on top of what was there; no other element is touched. The result does not depend on blocking.",
 ["inputs","configurations"],"every shape, orientation, leading dimension, coefficient pair and element value; binned and floating point results",
 T+"the complex, conjugated and non-square combinations are mostly untested.",
 ["src/binnedBLAS/dbdgemm.ccog","src/binnedBLAS/zbzgemm.ccog","src/binnedBLAS/sbsgemm.ccog","src/binnedBLAS/cbcgemm.ccog","src/reproBLAS/rdgemm.c","src/reproBLAS/rzgemm.c"],
 [("blocks packed and fed to dot kernels","src/binnedBLAS/dbdgemm.ccog"),("conversion of C times beta to accumulators and back","src/reproBLAS/rdgemm.c")],ACC,["binnedBLAS_*gemm, reproBLAS_*gemm"])
p("P13","Copying, clearing, converting, negating and renormalising mean what they say",
 "Copying an accumulator (also real into complex) copies what it represents, clearing empties it, converting a number to an accumulator equals adding it to an empty one, negation negates every total, and renormalisation changes nothing that is represented; packed and strided forms agree, and no operation changes its source. Negation commutes with accumulation: the negated sum is the sum of the negated numbers.",
 ["inputs","histories"],"every accumulator state, layout, stride and history of operations",
 "Existing tests exercise these operations only as scaffolding with default strides.",
 ["src/binned/dmdmset.c","src/binned/dmsetzero.c","src/binned/dmdconv.c","src/binned/dmnegate.c","src/binned/dmrenorm.c","src/binned/zmdmset.c","src/binned/zmzconv.c","src/binned/zzmconv_sub.c"],
 [("strided loops over bins","src/binned/dmdmset.c, dmsetzero.c, dmnegate.c")],ACC,["binned_*set, *setzero, *conv, *negate, *renorm"])
p("P14","The low-level update, deposit, renormalise protocol is safe within its contract",
 "A caller who makes room for the largest magnitude, deposits at most the documented number of values not larger than it, and renormalises gets exactly what adding the values would have given, for real and complex accumulators and either kind of bound. This also holds when the maximal number of maximal values is deposited.",
 ["inputs","histories"],"every legal interleaving of the three operations, up to the documented number of deposits",
 "Existing tests never deposit more than a few values between renormalisations, nor mixed bounds for complex accumulators.",
 ["src/binned/dmdupdate.c","src/binned/dmddeposit.c","src/binned/dmrenorm.c","src/binned/zmdupdate.c","src/binned/cmsupdate.c","include/binned.h"],
 [("room for 2^(p-w-2) deposits above a renormalised primary","include/binned.h"),("carry propagation","src/binned/dmrenorm.c")],ACC,["binned_*update, binned_*deposit, binned_*renorm"])
p("P15","Index, scale, size, leading-bit and state queries agree with the representation",
 "For every number the reported bin is the one its leading bit falls in, the reported scale is the power of the bin width just below it, and the unit in the first place of a normal number is its leading bit; for every fold the reported sizes are what allocation and storage need; the index reported for an accumulator is that of its top bin, and an accumulator is reported free of subnormal parts only when it is. The table of bins has the documented entries.",
 ["inputs"],"all exponents, boundary mantissas, signs, zeros, non-finite values, all folds and accumulator states",
 "Existing tests check a few indices only.",
 ["src/binned/dindex.c","src/binned/sindex.c","src/binned/dscale.c","src/binned/ufp.c","src/binned/ufpf.c","src/binned/dbsize.c","src/binned/dmindex.c","src/binned/dmdenorm.c","src/binned/dmbins.c"],
 [("exponent extraction","src/common/common.h"),("index arithmetic","src/binned/dindex.c")],None,["binned_*index, *scale, ufp, *size, *num, *alloc, *denorm, *bins"])
p("P16","MPI reductions and datatypes combine exactly what each process contributed",
 "The datatypes and reduction operators for message passing combine vectors of accumulators element by element exactly as merging does, for every fold, type and count, in any grouping the runtime chooses; the scaled variants combine scale and sum of squares together. A datatype covers exactly the bytes of an accumulator.",
 ["inputs","histories","schedules"],"every fold, type, count and grouping of operands",
 "The existing tests never build the message passing library.",
 ["src/binnedMPI/DBDBADD.ccog","src/binnedMPI/ZBZBADD.ccog","src/binnedMPI/SBSBADD.ccog","src/binnedMPI/CBCBADD.ccog","src/binnedMPI/DBDBADDSQ.ccog","src/binnedMPI/SBSBADDSQ.ccog","src/binnedMPI/DOUBLE_BINNED.c","src/binnedMPI/DOUBLE_BINNED_SCALED.c"],
 [("one operator per fold, created on first use","src/binnedMPI/*.ccog"),("contiguous datatypes per fold","src/binnedMPI/*.c")],ACC,["binnedMPI_* with MPI_Reduce_local and MPI_Type_size"])
p("P17","Results have the same bits in every build configuration",
 "Builds for different vector instruction sets, supported compilers, optimisation levels and tuning parameters, with or without the code generator (Python), return the same bits and leave the same accumulators for the same inputs, and each follows the same specification. Tuning parameters change speed only.",
 ["inputs","configurations"],"all supported instruction sets on this architecture (none, SSE2, AVX), gcc and clang, tuning parameters of the code generator, the sources generated for the release, optimisation levels; all operations",
 "The tests run one build only; no test compares builds.",
 ["src/gen/vectorizations.py","src/gen/generate.py","src/tuned_args.json","src/default_args.json","src/params.json","src/binnedBLAS/depositSum.py","scripts/getter.ccog"],
 [("vectorisation backends","src/gen/vectorizations.py"),("tuning parameters","src/tuned_args.json")],None,["whole library built several times"])
p("P18","One-call routines equal accumulate-and-convert, with the documented default fold",
 "Every routine that takes floating point vectors and returns a floating point result gives the same bits as accumulating into an empty accumulator of the same fold and converting it, whatever order and strides. The variants without a fold argument use fold 3.",
 ["inputs"],"every routine, vector, length, stride, fold",
 T+"the one-call routines are mostly tested against themselves.",
 ["src/reproBLAS/rdsum.c","src/reproBLAS/dsum.c","src/reproBLAS/rzdotc_sub.c","src/reproBLAS/rdnrm2.c","src/reproBLAS/rscasum.c","include/reproBLAS.h","config.h"],
 [("wrappers","src/reproBLAS/*.c"),("default fold","config.h")],None,["reproBLAS_*"])
p("P19","Operations touch only the memory that is theirs and release what they allocate",
 "Every operation reads and writes only the elements its length, stride, fold and leading dimension describe, changes only its destination, leaves no allocation behind and the floating-point unit's rounding and denormal modes as they were. Strided destinations keep what lies between their elements.",
 ["inputs","histories"],"every operation, layout, stride, length and leading dimension, in particular lengths just around vector widths and zero",
 "Existing tests do not surround their data with guards and never look between strided elements.",
 ["src/binnedBLAS/depositSum.py","src/gen/vectorizations.py","src/binned/dmdmset.c","src/binned/dbdbaddsq.c","src/binnedBLAS/dbdgemm.ccog","src/reproBLAS/rdsum.c"],
 [("remainder loops and masked loads","src/gen/vectorizations.py"),("temporary accumulators","src/reproBLAS/*.c, src/binned/*alloc.c")],None,["all operations, on page-guarded memory"])
p("P20","Largest-magnitude scans find the largest magnitude wherever it is",
 "The scan for the largest magnitude of a vector, or of the elementwise products of two vectors, returns exactly the largest one (per real and imaginary part for complex data) wherever it lies, for every length and stride. Signs and zeros do not matter, and infinities count as largest; data with NaNs are not covered.",
 ["inputs"],"every vector, length, stride and place of the largest element",
 "The scans have no tests of their own.",
 ["src/binnedBLAS/damax.ccog","src/binnedBLAS/damaxm.ccog","src/binnedBLAS/zamax_sub.ccog","src/binnedBLAS/zamaxm_sub.ccog","src/binnedBLAS/amax.py","src/binnedBLAS/amaxm.py"],
 [("vectorised maximum with remainder handling","src/binnedBLAS/amax.py, amaxm.py")],None,["binnedBLAS_*amax, binnedBLAS_*amaxm"])
p("P21","Calls on separate data do not disturb one another, whatever the threads do",
 "Operations called by different threads on data of their own give each thread exactly the bits it gets alone, in every interleaving, including when they are the first calls of the process and the shared tables of bins are still being filled. Nor does a result depend on what the process called before.",
 ["schedules","histories"],"every pair of operations, every point at which one is interrupted for the other, fresh and warmed-up process",
 "All existing tests are single threaded, and races need a preemption at a particular instruction.",
 ["src/binned/dmbins.c","src/binned/smbins.c","src/binnedBLAS/dmzssq.ccog","src/binned/dmdmadd.c","src/binned/dmdmaddsq.c","src/binnedBLAS/zbzgemm.ccog","src/reproBLAS/rdsum.c"],
 [("table of bins filled on first use, marked filled afterwards","src/binned/dmbins.c, src/binned/smbins.c"),("working memory of a call is its own","src/binnedBLAS/*.ccog, src/binned/*maddsq.c")],None,["all operations, from several threads"])
p("P22","Printing an accumulator shows what it holds and changes nothing",
 "Printing an accumulator (real or complex, single or double, any fold, packed or strided) that has received finite numbers writes one line per bin in order, with, for each component, the exponent above the stored primary, its offset, its carry and the total that the two stand for, to six digits; and leaves the accumulator as it was.",
 ["inputs","histories"],"every state an accumulator can reach, in every layout",
 "The existing tests print only when they fail, and never compare what is printed.",
 ["src/binned/dmprint.c","src/binned/smprint.c","src/binned/zmprint.c","src/binned/cmprint.c","src/binned/dbprint.c","src/binned/zbprint.c"],
 [("strided access to primaries and carries","src/binned/*mprint.c")],None,["binned_*print"])
import os
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    for f in q["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print("missing",q["id"],f)
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
