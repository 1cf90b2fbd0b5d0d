// does a compound assignment return the object it changed?
#pragma once
template<class A> bool returned_itself(A&r,const A&q){ return &r==&q; }
template<class A> bool returned_itself(A&&,const A&){ return false; }
