static inline const double const *

b(void )
{
#ifdef X
if(L"x" ) {



#ifdef X
if(sizeof (const struct bar) ){
#else
while ( + *~foo -> x1 (b -> some_long_identifier)) {
#endif
if ( (
#define X 1
volatile long) i ( ))
return;
else

#define X 1
break;}
( void)ptr();
}else {
a (THE_CONSTANT

	-> b [sizeof b] . a) ;

#ifdef X
if( ~ ( struct
#define X 1
bar const )x1 (foo,some_long_identifier, x1) / & b  -> i ( foo )>( b ) ? sizeof ( unsigned long
    long ): a -> THE_CONSTANT [ some_long_identifier]. foo){
#else
while(~sizeof x1 < "a"  "b" ^ THE_CONSTANT &&	ptr . THE_CONSTANT ){
#endif
if(x1 -> b ) MACRO (- & some_long_identifier

	)





} if(1 && a + b
#ifdef X
| ""
#endif
< b << ptr) {


continue;
} else{
#ifdef X
return;


#elif Y
foo() ;

#endif
goto out;}
i (ptr (~ (int )& foo(i ,
#ifdef X
"a\"b",
#elif Y
b ,
#endif
THE_CONSTANT, a ))!=
#ifdef X
-- i ||
#endif
x1
#ifdef X
&& x1
#else
|| ""
#endif
,some_long_identifier ,b);
}
#else
ptr();

#endif
goto out;
foo( );
}



#pragma once

#ifdef X
static
#elif Y

#if 0
#endif
static
#endif
inline int
some_long_identifier( void)
{
i ();
}

enum foo a;
