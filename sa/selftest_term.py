from term import *
x,y,t=sym('x'),sym('y'),sym('tau',nonneg=True)
d=sym('d','int',True)
assert equal(x/(x+y)+y/(x+y),ONE) is True
assert equal(x/(x+y)+y/(x+y),P(2)) is not True
assert ppow(P(2)/t,d)*ppow(P(2)/t,P(1))==ppow(P(2)/t,d+1)
assert ppow(P(2)/t,d)==ppow(t/2,-d)
k,c,b,K,C,D=[sym(n,'int',True) for n in 'k c b K C D'.split()]
cx=Ctx([lt(c,C),lt(b,D),lt(k,K),le(P(0),k),le(P(0),c),le(P(0),b),le(P(1),C),le(P(1),D)])
print(cx.decide(lt(k*C*D+c*D+b,(k+1)*C*D)))
print(cx.decide(lt(k*C*D+c*D+b,K*C*D)))
print(cx.decide(le(P(0),k*C*D+c*D+b)))
print(equal(ite(lt(x,y),x,y),ite(le(y,x),y,x)))
bv=fresh_bv(); 
s=psum(bv,K,P(bv)*x+y); print(s)
s2=psum(bv,K,fun('f',P(bv))*x+y); print(s2, equal(s2, x*psum(bv,K,fun('f',P(bv)))+K*y))
print(idiv(D*k+b,D), idiv(2*k+1,P(2)), idiv(D,P(2)), imod(2*k+1,P(2)))
print(equivalent(f_or(lt(x,y),eq(x,y)),le(x,y)))
print(equal(x,y))
