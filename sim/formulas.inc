// generated by tools/gen_formulas.py
F(0, P<0>)
F(0, Not<Or<P<0>, P<1>>>)
F(0, And<Or<P<0>, P<1>>, Not<P<2>>>)
F(0, Not<And<P<0>, Not<P<1>>>>)
F(1, Until<1, P<0>, P<1>>)
F(1, Until<1, Not<P<0>>, P<1>>)
F(1, Until<3, P<0>, P<1>>)
F(1, Until<3, Not<P<0>>, P<1>>)
F(1, Until<8, P<0>, P<1>>)
F(1, Until<8, Not<P<0>>, P<1>>)
F(1, Until<21, P<0>, P<1>>)
F(1, Until<21, Not<P<0>>, P<1>>)
F(2, Since<1, P<0>, P<1>>)
F(2, Since<1, Not<P<0>>, P<1>>)
F(2, Since<3, P<0>, P<1>>)
F(2, Since<3, Not<P<0>>, P<1>>)
F(2, Since<8, P<0>, P<1>>)
F(2, Since<8, Not<P<0>>, P<1>>)
F(2, Since<21, P<0>, P<1>>)
F(2, Since<21, Not<P<0>>, P<1>>)
F(1, AlwaysL<1, P<0>>)
F(1, AlwaysL<1, Not<P<0>>>)
F(1, AlwaysL<3, P<0>>)
F(1, AlwaysL<3, Not<P<0>>>)
F(1, AlwaysL<8, P<0>>)
F(1, AlwaysL<8, Not<P<0>>>)
F(1, AlwaysL<21, P<0>>)
F(1, AlwaysL<21, Not<P<0>>>)
F(1, AlEq<1, P<0>>)
F(1, AlEq<1, Not<P<0>>>)
F(1, AlEq<3, P<0>>)
F(1, AlEq<3, Not<P<0>>>)
F(1, AlEq<8, P<0>>)
F(1, AlEq<8, Not<P<0>>>)
F(1, AlEq<21, P<0>>)
F(1, AlEq<21, Not<P<0>>>)
F(1, EvEq<1, P<0>>)
F(1, EvEq<1, Not<P<0>>>)
F(1, EvEq<3, P<0>>)
F(1, EvEq<3, Not<P<0>>>)
F(1, EvEq<8, P<0>>)
F(1, EvEq<8, Not<P<0>>>)
F(1, EvEq<21, P<0>>)
F(1, EvEq<21, Not<P<0>>>)
F(2, HistL<1, P<0>>)
F(2, HistL<1, Not<P<0>>>)
F(2, HistL<3, P<0>>)
F(2, HistL<3, Not<P<0>>>)
F(2, HistL<8, P<0>>)
F(2, HistL<8, Not<P<0>>>)
F(2, HistL<21, P<0>>)
F(2, HistL<21, Not<P<0>>>)
F(2, HistEq<1, P<0>>)
F(2, HistEq<1, Not<P<0>>>)
F(2, HistEq<3, P<0>>)
F(2, HistEq<3, Not<P<0>>>)
F(2, HistEq<8, P<0>>)
F(2, HistEq<8, Not<P<0>>>)
F(2, HistEq<21, P<0>>)
F(2, HistEq<21, Not<P<0>>>)
F(2, PastEq<1, P<0>>)
F(2, PastEq<1, Not<P<0>>>)
F(2, PastEq<3, P<0>>)
F(2, PastEq<3, Not<P<0>>>)
F(2, PastEq<8, P<0>>)
F(2, PastEq<8, Not<P<0>>>)
F(2, PastEq<21, P<0>>)
F(2, PastEq<21, Not<P<0>>>)
F(1, UntilIn<3, Not<P<0>>, P<1>>)
F(1, UntilIn<3, P<0>, P<1>>)
F(1, UntilIn<3, Tr, P<1>>)
F(1, UntilIn<8, Not<P<0>>, P<1>>)
F(1, UntilIn<8, P<0>, P<1>>)
F(1, UntilIn<8, Tr, P<1>>)
F(1, UntilIn<21, Not<P<0>>, P<1>>)
F(1, UntilIn<21, P<0>, P<1>>)
F(1, UntilIn<21, Tr, P<1>>)
F(1, EvU<P<0>>)
F(1, EvU<Not<P<0>>>)
F(1, Not<EvU<P<1>>>)
F(4, DurC<0, P<0>, 3>)
F(4, DurC<0, Not<P<0>>, 2>)
F(4, DurD<0, P<0>, 0, P<1>>)
F(4, DurS<0, P<0>, 5, P<1>, 6>)
F(4, DurC<2, P<0>, 3>)
F(4, DurC<2, Not<P<0>>, 2>)
F(4, DurD<2, P<0>, 2, P<1>>)
F(4, DurS<2, P<0>, 5, P<1>, 6>)
F(4, DurC<5, P<0>, 3>)
F(4, DurC<5, Not<P<0>>, 2>)
F(4, DurD<5, P<0>, 5, P<1>>)
F(4, DurS<5, P<0>, 5, P<1>, 6>)
F(4, DurC<13, P<0>, 3>)
F(4, DurC<13, Not<P<0>>, 2>)
F(4, DurD<13, P<0>, 13, P<1>>)
F(4, DurS<13, P<0>, 5, P<1>, 6>)
F(1, UntilIn<21, P<1>, P<1>>)
F(1, AlwaysL<1, EvU<P<2>>>)
F(1, Not<AlwaysL<13, P<2>>>)
F(1, Until<2, Not<AlwaysL<1, P<1>>>, UntilIn<5, Not<P<0>>, Fa>>)
F(1, UntilIn<2, P<2>, P<1>>)
F(1, AlEq<2, EvEq<2, Not<P<2>>>>)
F(1, Imp<Or<AlEq<3, P<2>>, EvU<Fa>>, Not<EvEq<2, P<2>>>>)
F(1, EvU<EvU<P<2>>>)
F(1, Or<Until<2, P<1>, P<2>>, EvU<P<2>>>)
F(1, Until<13, UntilIn<21, P<0>, Fa>, EvEq<2, And<P<1>, Fa>>>)
F(1, Until<1, Until<2, Fa, P<0>>, EvEq<1, P<2>>>)
F(1, UntilIn<21, P<2>, P<1>>)
F(1, AlEq<1, Until<3, Until<2, P<0>, Not<P<2>>>, UntilIn<1, P<2>, P<1>>>>)
F(1, Until<8, Imp<Fa, P<0>>, EvU<P<0>>>)
F(1, UntilIn<3, P<0>, Not<P<1>>>)
F(1, EvU<UntilIn<5, Tr, P<0>>>)
F(1, Or<Until<3, P<2>, P<2>>, AlEq<8, P<2>>>)
F(1, Not<Until<8, P<0>, P<0>>>)
F(1, EvU<Until<21, Imp<P<0>, P<1>>, Until<21, P<2>, P<0>>>>)
F(1, Until<3, Or<Fa, P<1>>, Until<2, Not<P<2>>, P<2>>>)
F(1, EvEq<3, Imp<P<1>, P<2>>>)
F(1, EvU<EvU<AlwaysL<21, P<1>>>>)
F(1, AlEq<8, AlEq<8, P<1>>>)
F(1, EvU<AlwaysL<1, P<0>>>)
F(1, And<Imp<Or<Not<P<2>>, P<2>>, EvU<P<0>>>, Until<13, Imp<P<0>, P<0>>, EvU<Fa>>>)
F(1, Until<13, Imp<P<2>, P<1>>, UntilIn<13, P<2>, Tr>>)
F(1, UntilIn<5, P<1>, P<2>>)
F(1, AlEq<8, Or<EvU<Fa>, AlwaysL<13, P<0>>>>)
F(1, AlEq<5, UntilIn<21, P<1>, P<1>>>)
F(1, EvU<AlEq<2, P<1>>>)
F(1, And<EvU<Until<8, Tr, Tr>>, And<Until<1, Not<P<1>>, P<1>>, UntilIn<13, Tr, P<0>>>>)
F(1, Until<8, AlwaysL<3, P<1>>, EvEq<1, P<2>>>)
F(1, EvU<EvEq<1, P<1>>>)
F(1, UntilIn<2, Fa, P<2>>)
F(1, Imp<Until<21, Fa, P<0>>, AlEq<2, P<0>>>)
F(1, AlEq<8, AlwaysL<13, Not<P<1>>>>)
F(1, Not<Imp<EvU<P<1>>, EvEq<13, P<2>>>>)
F(1, UntilIn<5, P<1>, P<1>>)
F(1, Until<21, Imp<P<1>, P<0>>, Until<8, P<2>, P<1>>>)
F(1, And<AlwaysL<13, Imp<P<2>, P<1>>>, EvEq<1, And<Not<P<2>>, P<2>>>>)
F(1, Imp<AlEq<1, P<1>>, Until<3, P<0>, P<0>>>)
F(1, AlwaysL<13, UntilIn<8, P<1>, P<2>>>)
F(1, Or<UntilIn<5, P<0>, P<2>>, Imp<AlwaysL<5, P<0>>, UntilIn<1, P<1>, Tr>>>)
F(1, AlwaysL<1, EvEq<8, P<1>>>)
F(1, Until<3, AlwaysL<13, P<2>>, Until<3, P<1>, P<2>>>)
F(2, PastEq<3, HistL<3, HistL<5, Fa>>>)
F(2, Since<2, HistEq<8, P<1>>, Since<21, P<1>, P<1>>>)
F(2, Imp<Since<21, P<2>, Fa>, HistL<3, P<0>>>)
F(2, HistEq<5, Imp<And<P<0>, P<0>>, HistL<3, P<0>>>>)
F(2, HistEq<1, PastEq<5, P<1>>>)
F(0, Or<And<P<2>, P<1>>, Or<P<0>, P<2>>>)
F(2, Since<8, HistEq<5, And<P<2>, P<2>>>, PastEq<2, Since<1, P<0>, P<1>>>>)
F(2, HistL<21, Since<13, P<0>, P<2>>>)
F(2, Imp<PastEq<2, P<0>>, Since<3, P<1>, P<1>>>)
F(2, PastEq<2, Not<And<P<1>, P<2>>>>)
F(2, Not<Since<13, P<2>, Not<P<1>>>>)
F(2, Since<5, Since<3, P<2>, P<2>>, Since<1, Not<P<2>>, P<0>>>)
F(2, HistEq<1, HistEq<8, And<P<1>, P<0>>>>)
F(2, And<Since<2, P<2>, P<2>>, HistL<5, P<0>>>)
F(2, PastEq<8, PastEq<3, P<1>>>)
F(2, And<And<HistL<2, P<0>>, PastEq<13, Tr>>, Since<5, Since<13, P<0>, P<1>>, HistL<2, P<0>>>>)
F(2, And<Since<3, P<2>, P<1>>, HistEq<5, P<1>>>)
F(2, Or<PastEq<3, Fa>, PastEq<2, P<2>>>)
F(2, Since<8, HistEq<3, HistEq<8, P<0>>>, And<Since<3, P<1>, P<0>>, Since<2, P<1>, P<1>>>>)
F(2, Since<5, HistL<21, P<0>>, HistEq<8, P<0>>>)
F(2, Since<13, Since<8, P<1>, P<0>>, Since<8, P<0>, Not<P<2>>>>)
F(2, Since<13, Since<8, Or<Not<P<2>>, Fa>, Or<P<1>, P<1>>>, PastEq<13, HistEq<21, P<2>>>>)
F(2, Or<HistEq<3, P<2>>, Since<13, P<1>, P<1>>>)
F(2, And<Or<Not<P<0>>, P<0>>, HistEq<3, Not<P<0>>>>)
F(2, PastEq<3, Since<5, HistL<3, P<0>>, HistL<2, P<0>>>>)
F(2, Since<21, HistEq<21, P<1>>, HistEq<5, P<1>>>)
F(2, HistEq<21, Since<21, P<1>, P<1>>>)
F(2, Since<3, Since<8, PastEq<1, P<1>>, HistEq<5, P<0>>>, PastEq<3, Since<3, Fa, P<2>>>>)
F(2, PastEq<8, HistEq<5, Fa>>)
F(2, HistL<8, Since<8, P<0>, P<2>>>)
F(4, DurD<5, Or<DurD<5, P<1>, 8, Not<P<1>>>, DurS<0, P<1>, 8, P<1>, 5>>, 1, DurS<0, DurC<21, P<0>, 4>, 0, DurD<5, P<1>, 1, Tr>, 9>>)
F(4, DurS<21, DurD<3, P<2>, 13, Not<P<2>>>, 0, DurS<13, P<2>, 2, Not<P<0>>, 2>, 2>)
F(4, DurC<5, DurD<2, P<0>, 3, Tr>, 12>)
F(4, Imp<DurD<5, DurC<13, Not<P<2>>, 4>, 2, Not<Not<P<1>>>>, DurS<3, Imp<P<1>, P<0>>, 2, DurC<13, P<0>, 2>, 9>>)
F(4, DurC<5, DurC<8, P<2>, 12>, 12>)
F(4, DurC<8, And<P<2>, Tr>, 12>)
F(4, Or<DurS<3, DurC<2, P<1>, 2>, 21, And<P<0>, P<0>>, 2>, DurD<3, DurC<2, Tr, 7>, 0, DurS<1, P<2>, 3, P<2>, 2>>>)
F(4, DurC<21, DurC<3, P<1>, 1>, 12>)
F(3, HistL<13, And<PastEq<5, P<1>>, Until<21, P<2>, P<0>>>>)
F(3, PastEq<21, AlwaysL<5, P<1>>>)
F(0, Not<And<P<0>, P<0>>>)
F(3, And<Not<Since<8, P<1>, P<1>>>, Until<5, EvEq<21, P<2>>, Since<13, P<2>, P<2>>>>)
F(1, UntilIn<2, P<0>, Fa>)
F(3, Until<21, HistL<13, P<0>>, UntilIn<2, P<2>, P<2>>>)
F(3, Imp<PastEq<1, PastEq<3, P<0>>>, Or<HistL<2, Not<P<1>>>, EvU<P<2>>>>)
F(3, Until<5, Since<21, P<1>, P<2>>, HistEq<5, P<1>>>)
F(1, EvEq<1, Until<5, P<2>, P<0>>>)
F(3, Until<2, PastEq<5, AlwaysL<1, Tr>>, Since<3, AlEq<5, P<1>>, UntilIn<13, P<1>, P<1>>>>)
F(2, PastEq<5, Since<3, P<2>, P<0>>>)
F(3, HistEq<2, EvU<Not<P<1>>>>)
F(1, Not<AlwaysL<21, EvU<P<0>>>>)
F(3, Imp<AlEq<2, P<1>>, HistEq<5, Fa>>)
F(2, PastEq<1, And<P<0>, Fa>>)
F(1, EvU<Or<And<P<2>, Not<P<1>>>, Until<8, P<2>, Not<P<1>>>>>)
F(3, Since<5, Until<13, P<0>, P<1>>, Since<1, Not<P<1>>, Not<P<2>>>>)
F(1, EvEq<5, Until<2, P<2>, P<0>>>)
F(3, Since<13, Since<13, EvU<P<0>>, And<Not<P<0>>, Not<P<2>>>>, HistEq<13, EvEq<5, Fa>>>)
F(3, Since<21, HistEq<3, Not<P<2>>>, UntilIn<8, P<2>, P<2>>>)
F(6, PastEq<13, DurS<13, DurC<1, Not<P<1>>, 1>, 5, Or<Tr, P<1>>, 9>>)
F(6, DurS<3, DurS<21, P<0>, 2, P<1>, 5>, 13, Since<1, P<2>, P<0>>, 5>)
F(1, AlwaysL<21, And<P<2>, P<2>>>)
F(3, Until<21, Since<8, Not<Fa>, AlwaysL<2, P<0>>>, AlwaysL<1, Until<21, Not<P<1>>, P<2>>>>)
F(2, PastEq<13, Or<P<1>, Tr>>)
F(5, EvU<DurD<13, P<0>, 13, Tr>>)
F(3, Since<5, UntilIn<1, P<1>, Not<P<1>>>, Or<EvEq<13, Not<P<1>>>, And<P<1>, P<2>>>>)
F(3, HistL<21, EvU<Fa>>)
F(1, UntilIn<8, P<2>, P<0>>)
F(1, AlEq<8, Until<5, Until<3, P<0>, P<1>>, Imp<Not<P<2>>, P<1>>>>)
F(1, Not<EvU<Not<P<0>>>>)
F(3, Since<21, EvEq<8, Not<P<2>>>, EvU<P<2>>>)
F(5, Until<3, AlEq<3, Not<P<0>>>, Until<8, Not<P<2>>, DurS<21, P<2>, 5, Not<P<0>>, 5>>>)
F(5, DurD<13, AlEq<1, Tr>, 2, AlwaysL<2, P<2>>>)
F(5, DurC<21, UntilIn<8, P<1>, P<1>>, 1>)
F(6, HistL<2, DurC<3, DurS<21, Not<P<1>>, 1, P<1>, 2>, 12>>)
F(5, EvU<DurC<2, P<1>, 2>>)
F(3, HistEq<3, AlEq<21, Fa>>)
F(1, UntilIn<3, P<2>, P<0>>)
F(6, Since<1, Not<P<2>>, DurD<5, P<1>, 13, Not<P<2>>>>)
F(1, UntilIn<5, Not<P<0>>, P<1>>)
F(1, UntilIn<5, Not<P<0>>, EvEq<2, P<1>>>)
F(5, UntilIn<5, Not<P<0>>, DurC<5, P<0>, 2>>)
F(1, UntilIn<5, EvEq<2, P<0>>, AlEq<3, Not<P<1>>>>)
F(1, UntilIn<5, EvEq<2, P<0>>, And<P<1>, EvEq<1, P<2>>>>)
F(5, UntilIn<5, Not<DurC<3, P<0>, 2>>, P<1>>)
F(5, UntilIn<5, Not<DurC<3, P<0>, 2>>, EvEq<2, P<1>>>)
F(5, UntilIn<5, Not<DurC<3, P<0>, 2>>, DurC<5, P<0>, 2>>)
F(1, UntilIn<13, Tr, AlEq<3, Not<P<1>>>>)
F(1, UntilIn<13, Tr, And<P<1>, EvEq<1, P<2>>>>)
F(1, UntilIn<13, EvEq<2, P<0>>, P<1>>)
F(1, UntilIn<13, EvEq<2, P<0>>, EvEq<2, P<1>>>)
F(5, UntilIn<13, EvEq<2, P<0>>, DurC<5, P<0>, 2>>)
F(1, UntilIn<13, Until<5, P<0>, P<1>>, AlEq<3, Not<P<1>>>>)
F(1, UntilIn<13, Until<5, P<0>, P<1>>, And<P<1>, EvEq<1, P<2>>>>)
F(1, UntilIn<13, Or<P<0>, AlEq<1, P<2>>>, AlEq<3, Not<P<1>>>>)
F(1, UntilIn<13, Or<P<0>, AlEq<1, P<2>>>, And<P<1>, EvEq<1, P<2>>>>)
F(1, UntilIn<21, Not<P<0>>, AlEq<3, Not<P<1>>>>)
F(1, UntilIn<21, Not<P<0>>, And<P<1>, EvEq<1, P<2>>>>)
F(1, UntilIn<21, Tr, EvEq<2, P<1>>>)
F(5, UntilIn<21, Tr, DurC<5, P<0>, 2>>)
F(1, UntilIn<21, Until<5, P<0>, P<1>>, P<1>>)
F(1, UntilIn<21, Until<5, P<0>, P<1>>, EvEq<2, P<1>>>)
F(5, UntilIn<21, Until<5, P<0>, P<1>>, DurC<5, P<0>, 2>>)
F(1, UntilIn<21, Or<P<0>, AlEq<1, P<2>>>, P<1>>)
F(1, UntilIn<21, Or<P<0>, AlEq<1, P<2>>>, EvEq<2, P<1>>>)
F(5, UntilIn<21, Or<P<0>, AlEq<1, P<2>>>, DurC<5, P<0>, 2>>)
F(5, UntilIn<21, Not<DurC<3, P<0>, 2>>, AlEq<3, Not<P<1>>>>)
F(5, UntilIn<21, Not<DurC<3, P<0>, 2>>, And<P<1>, EvEq<1, P<2>>>>)
F(1, Until<0, P<0>, P<1>>)
F(1, Until<0, Tr, Not<P<1>>>)
F(2, Since<0, P<0>, P<1>>)
F(2, Since<0, Tr, Not<P<1>>>)
F(1, AlwaysL<0, P<0>>)
F(1, AlEq<0, P<0>>)
F(1, EvEq<0, P<0>>)
F(2, HistL<0, P<0>>)
F(3, Until<8, Since<0, P<0>, P<1>>, EvEq<0, P<2>>>)
F(3, AlwaysL<5, Imp<P<0>, HistL<0, P<1>>>>)
F(9, Until<1*BIG, Not<P<0>>, P<1>>)
F(9, Until<3*BIG, Not<P<0>>, P<1>>)
F(9, Until<8*BIG, Not<P<0>>, P<1>>)
F(9, Until<21*BIG, Not<P<0>>, P<1>>)
F(10, Since<1*BIG, Not<P<0>>, P<1>>)
F(10, Since<3*BIG, Not<P<0>>, P<1>>)
F(10, Since<8*BIG, Not<P<0>>, P<1>>)
F(10, Since<21*BIG, Not<P<0>>, P<1>>)
F(9, UntilIn<1*BIG, Not<P<0>>, P<1>>)
F(9, UntilIn<3*BIG, Not<P<0>>, P<1>>)
F(9, UntilIn<8*BIG, Not<P<0>>, P<1>>)
F(9, UntilIn<21*BIG, Not<P<0>>, P<1>>)
F(9, AlwaysL<3*BIG, P<0>>)
F(9, AlwaysL<8*BIG, P<0>>)
F(9, AlwaysL<21*BIG, P<0>>)
F(9, AlEq<3*BIG, P<0>>)
F(9, AlEq<8*BIG, P<0>>)
F(9, AlEq<21*BIG, P<0>>)
F(9, EvEq<3*BIG, P<0>>)
F(9, EvEq<8*BIG, P<0>>)
F(9, EvEq<21*BIG, P<0>>)
F(10, HistL<3*BIG, P<0>>)
F(10, HistL<8*BIG, P<0>>)
F(10, HistL<21*BIG, P<0>>)
F(10, HistEq<3*BIG, P<0>>)
F(10, HistEq<8*BIG, P<0>>)
F(10, HistEq<21*BIG, P<0>>)
F(10, PastEq<3*BIG, P<0>>)
F(10, PastEq<8*BIG, P<0>>)
F(10, PastEq<21*BIG, P<0>>)
F(12, DurC<0, P<0>, 3*BIG>)
F(12, DurS<0, P<0>, 5*BIG, P<1>, 6*BIG>)
F(12, DurC<2*BIG, P<0>, 3*BIG>)
F(12, DurD<2*BIG, P<0>, 2*BIG, P<1>>)
F(12, DurS<2*BIG, P<0>, 5*BIG, P<1>, 6*BIG>)
F(12, DurC<5*BIG, P<0>, 3*BIG>)
F(12, DurD<5*BIG, P<0>, 5*BIG, P<1>>)
F(12, DurS<5*BIG, P<0>, 5*BIG, P<1>, 6*BIG>)
F(12, DurC<13*BIG, P<0>, 3*BIG>)
F(12, DurD<13*BIG, P<0>, 13*BIG, P<1>>)
F(12, DurS<13*BIG, P<0>, 5*BIG, P<1>, 6*BIG>)
F(9, AlwaysL<8*BIG, Imp<P<0>, Until<5*BIG, Tr, P<1>>>>)
F(11, Until<13*BIG, Since<3*BIG, P<0>, P<1>>, EvEq<5*BIG, P<2>>>)
F(10, HistL<13*BIG, Imp<P<0>, PastEq<5*BIG, P<1>>>>)
F(13, AlwaysL<5*BIG, DurC<8*BIG, P<0>, 5*BIG>>)
F(9, EvU<Until<5*BIG, P<0>, P<1>>>)
F(9, UntilIn<13*BIG, Not<P<0>>, EvEq<2*BIG, P<1>>>)
F(13, UntilIn<13*BIG, EvEq<1*BIG, P<0>>, DurC<5*BIG, P<0>, 2*BIG>>)
F(9, UntilIn<13*BIG, Tr, AlEq<3*BIG, P<1>>>)
#undef F
G(0, P<0>)
G(0, Not<P<0>>)
G(0, Or<P<0>, P<1>>)
G(1, P<0>)
G(1, Not<P<0>>)
G(1, Or<P<0>, P<1>>)
G(2, P<0>)
G(2, Not<P<0>>)
G(2, Or<P<0>, P<1>>)
G(4, P<0>)
G(4, Not<P<0>>)
G(4, Or<P<0>, P<1>>)
G(7, P<0>)
G(7, Not<P<0>>)
G(7, Or<P<0>, P<1>>)
G(11, P<0>)
G(11, Not<P<0>>)
G(11, Or<P<0>, P<1>>)
G(18, P<0>)
G(18, Not<P<0>>)
G(18, Or<P<0>, P<1>>)
G(33, P<0>)
G(33, Not<P<0>>)
G(33, Or<P<0>, P<1>>)
G(1, DurC<0, DurD<5, P<0>, 8, P<0>>, 12>)
G(3, Since<21, P<1>, P<0>>)
G(1, DurS<2, DurC<5, P<1>, 2>, 0, DurD<0, Fa, 1, P<0>>, 5>)
G(0, EvEq<1, P<2>>)
G(1, Until<2, AlwaysL<21, P<0>>, EvEq<21, P<0>>>)
G(15, Until<21, P<2>, P<1>>)
G(6, UntilIn<5, P<2>, P<2>>)
G(6, AlEq<8, P<1>>)
G(1, DurD<8, DurS<13, Not<P<2>>, 8, P<0>, 5>, 1, DurC<2, P<2>, 4>>)
G(6, EvU<P<2>>)
G(10, EvU<Or<P<2>, P<0>>>)
G(6, DurD<5, P<0>, 3, P<2>>)
G(15, Not<And<P<2>, P<1>>>)
G(0, EvEq<3, P<1>>)
G(6, Since<8, And<P<2>, P<0>>, AlEq<1, P<1>>>)
G(15, Until<8, P<1>, Not<P<2>>>)
G(0, P<0>)
G(0, Or<P<0>, P<1>>)
G(1*BIG, P<0>)
G(1*BIG, Or<P<0>, P<1>>)
G(4*BIG, P<0>)
G(4*BIG, Or<P<0>, P<1>>)
G(11*BIG, P<0>)
G(11*BIG, Or<P<0>, P<1>>)
G(18*BIG, P<0>)
G(18*BIG, Or<P<0>, P<1>>)
G(7*BIG, Until<3*BIG, P<0>, P<1>>)
#undef G
