// ll2c: mechanical LLVM-IR -> C translator used to bring the real C++ code of /repo within reach of CBMC.
// usage: ll2c in.bc out.c --entry NAME... [--stub FILE-with-names] [--replace OLD=NEW]... [--report FILE]
// Every function reachable from the entries that has a body in the IR is translated; functions that are listed as
// stubs are only declared (their C definition is in stubs.c); everything that is dropped is written to the report.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <cmath>
using namespace llvm;
using std::string;

static const DataLayout *DL;
static std::map<Type *, string> tyName;
static std::ostringstream typeDecls;
static std::vector<std::pair<string,uint64_t>> sizeChecks;
static std::set<string> unsupported;
static int anon = 0;

[[noreturn]] static void die( const string &m ) { std::cerr << "ll2c: " << m << "\n"; exit( 2 ); }

static string san( StringRef s )
{
   string r;
   for( char c: s )
      if( isalnum( (unsigned char) c ) || c == '_' ) r += c;
      else { char b[8]; snprintf( b, 8, "_%02x", (unsigned char) c ); r += b; }
   if( !r.empty() && isdigit( (unsigned char) r[0] ) ) r = "_" + r;
   return r;
}

static string cty( Type *T );
static std::set<Type *> defined;

static string cty( Type *T )
{
   auto it = tyName.find( T );
   if( it != tyName.end() ) return it->second;
   string n;
   if( auto *IT = dyn_cast<IntegerType>( T ) )
   {
      switch( IT->getBitWidth() )
      {
         case 1: n = "_Bool"; break;
         case 8: n = "u8"; break;
         case 16: n = "u16"; break;
         case 32: n = "u32"; break;
         case 64: n = "u64"; break;
         case 128: n = "u128"; break;
         default:
            n = "ub" + std::to_string( IT->getBitWidth() );
            typeDecls << "typedef unsigned __CPROVER_bitvector[" << IT->getBitWidth() << "] " << n << ";\n";
            typeDecls << "typedef signed __CPROVER_bitvector[" << IT->getBitWidth() << "] s" << n.substr( 1 ) << ";\n";
      }
   }
   else if( T->isFloatTy() ) n = "float";
   else if( T->isDoubleTy() ) n = "double";
   else if( T->isX86_FP80Ty() ) n = "long double";
   else if( T->isPointerTy() ) n = "ptr";
   else if( T->isVoidTy() ) n = "void";
   else if( auto *AT = dyn_cast<ArrayType>( T ) )
   {
      string e = cty( AT->getElementType() );
      n = "arr" + std::to_string( anon++ );
      // zero length arrays are GNU C; CBMC accepts them
      typeDecls << "typedef " << e << " " << n << "[" << AT->getNumElements() << "];\n";
   }
   else if( auto *ST = dyn_cast<StructType>( T ) )
   {
      if( ST->isOpaque() ) { n = "struct opaque" + std::to_string( anon++ ); tyName[T] = n; return n; }
      n = "struct s" + std::to_string( anon++ ) + "_" + ( ST->hasName() ? san( ST->getName() ).substr( 0, 60 ) : "" );
      std::ostringstream body;
      auto *SL = DL->getStructLayout( ST );
      unsigned i = 0;
      for( Type *E: ST->elements() )
      {
         string c = cty( E );
         body << "  " << c << " f" << i << ";\n";
         i++;
      }
      if( ST->hasName() ) typeDecls << "/* " << ST->getName().str() << " */\n";
      typeDecls << n << " {\n" << body.str();
      if( !i ) typeDecls << "";
      typeDecls << "}" << ( ST->isPacked() ? " __attribute__((packed))" : "" ) << ";\n";
      if( i )
      {
         sizeChecks.push_back( { "sizeof(" + n + ")", SL->getSizeInBytes() } );
         for( unsigned k = 0; k < i; k++ )
            sizeChecks.push_back( { "__builtin_offsetof(" + n + ",f" + std::to_string( k ) + ")", SL->getElementOffset( k ) } );
      }
   }
   else if( isa<FixedVectorType>( T ) )
   {
      // vectors are kept as arrays in a struct; only a few operations are supported
      auto *VT = cast<FixedVectorType>( T );
      string e = cty( VT->getElementType() );
      n = "struct vec" + std::to_string( anon++ );
      typeDecls << n << " { " << e << " a[" << VT->getNumElements() << "]; };\n";
   }
   else
   {
      string s; raw_string_ostream os( s ); T->print( os );
      die( "unsupported type " + s );
   }
   tyName[T] = n;
   return n;
}

static string sty( Type *T )// signed version
{
   auto *IT = cast<IntegerType>( T );
   switch( IT->getBitWidth() )
   {
      case 1: return "signed __CPROVER_bitvector[1]";
      case 8: return "s8";
      case 16: return "s16";
      case 32: return "s32";
      case 64: return "s64";
      case 128: return "s128";
      default: cty( T ); return "sb" + std::to_string( IT->getBitWidth() );
   }
}

struct Tr
{
   Module &M;
   std::set<string> entries, stubs;
   std::map<string, string> repl;
   std::vector<Function *> work;
   std::set<Function *> doneF;
   std::set<GlobalVariable *> globs;
   std::vector<GlobalVariable *> globOrder;
   std::set<Function *> declared;
   std::set<string> external;// called without body and without stub
   std::map<Value *, string> gname;
   std::ostringstream out;
   std::set<string> usedRepl;
   std::ostringstream report;
   std::set<string> stubbedUsed;

   explicit Tr( Module &m ) : M( m ) {}

   Function *target( Function *F )
   {
      auto it = repl.find( F->getName().str() );
      if( it != repl.end() )
      {
         Function *G = M.getFunction( it->second );
         if( !G ) die( "replacement " + it->second + " not in module" );
         usedRepl.insert( F->getName().str() );
         return G;
      }
      return F;
   }

   string fname( Function *F )
   {
      F = target( F );
      if( declared.insert( F ).second ) work.push_back( F );
      return "F_" + san( F->getName() );
   }

   string gvname( GlobalVariable *G )
   {
      if( globs.insert( G ).second ) globOrder.push_back( G );
      return "G_" + san( G->hasName() ? G->getName() : "anon" );
   }

   string fproto( Function *F )
   {
      FunctionType *FT = F->getFunctionType();
      std::ostringstream o;
      o << cty( FT->getReturnType() ) << " F_" << san( F->getName() ) << "(";
      unsigned i = 0;
      for( Type *P: FT->params() )
      {
         if( i ) o << ", ";
         o << cty( P ) << " a" << i;
         i++;
      }
      if( !i && !FT->isVarArg() ) o << "void";
      if( FT->isVarArg() ) o << ( i ? ", ..." : "void" );
      o << ")";
      return o.str();
   }

   string fptype( FunctionType *FT )
   {
      std::ostringstream o;
      o << cty( FT->getReturnType() ) << "(*)(";
      unsigned i = 0;
      for( Type *P: FT->params() ) { if( i++ ) o << ", "; o << cty( P ); }
      if( FT->isVarArg() ) o << ( i ? ", ..." : "" );
      else if( !i ) o << "void";
      o << ")";
      return o.str();
   }

   static string intLit( const APInt &v, Type *T )
   {
      SmallString<40> s;
      v.toString( s, 10, false );
      unsigned w = v.getBitWidth();
      if( w == 1 ) return v.isZero() ? "((_Bool)0)" : "((_Bool)1)";
      if( w <= 32 ) return "((" + cty( T ) + ")" + s.str().str() + "u)";
      if( w <= 64 ) return "((" + cty( T ) + ")" + s.str().str() + "ull)";
      // 128 bit
      APInt hi = v.lshr( 64 ).trunc( 64 ), lo = v.trunc( 64 );
      SmallString<40> a, b;
      hi.toString( a, 10, false ); lo.toString( b, 10, false );
      return "((((" + cty( T ) + ")" + a.str().str() + "ull)<<64)|" + b.str().str() + "ull)";
   }

   static string fpLit( const ConstantFP *C )
   {
      Type *T = C->getType();
      APInt bits = C->getValueAPF().bitcastToAPInt();
      char b[96];
      if( T->isDoubleTy() )
      {
         double d = C->getValueAPF().convertToDouble();
         if( std::isfinite( d ) ) snprintf( b, 96, "(%a)", d );
         else snprintf( b, 96, "vf_bits2d(0x%llxull)", (unsigned long long) bits.getZExtValue() );
         return b;
      }
      if( T->isFloatTy() )
      {
         float d = C->getValueAPF().convertToFloat();
         snprintf( b, 96, "((float)%a)", (double) d );
         return b;
      }
      die( "fp literal type" );
   }

   // GEP expression
   string gep( Type *SrcTy, const string &base, ArrayRef<Value *> idx, const std::function<string( Value * )> &val )
   {
      string e;
      Type *cur = SrcTy;
      auto *c0 = dyn_cast<ConstantInt>( idx[0] );
      if( c0 && c0->isZero() ) e = "(*(" + cty( SrcTy ) + "*)" + base + ")";
      else if( c0 ) e = "((" + cty( SrcTy ) + "*)" + base + ")[" + std::to_string( c0->getSExtValue() ) + "]";
      else
         e = "((" + cty( SrcTy ) + "*)" + base + ")[(" + sty( idx[0]->getType() ) + ")" + val( idx[0] ) + "]";
      for( size_t i = 1; i < idx.size(); i++ )
      {
         if( auto *ST = dyn_cast<StructType>( cur ) )
         {
            unsigned k = cast<ConstantInt>( idx[i] )->getZExtValue();
            e += ".f" + std::to_string( k );
            cur = ST->getElementType( k );
         }
         else if( auto *AT = dyn_cast<ArrayType>( cur ) )
         {
            if( auto *ci = dyn_cast<ConstantInt>( idx[i] ) ) e += "[" + std::to_string( ci->getSExtValue() ) + "]";
            else
               e += "[(" + sty( idx[i]->getType() ) + ")" + val( idx[i] ) + "]";
            cur = AT->getElementType();
         }
         else
            die( "gep into vector" );
      }
      return "((ptr)&" + e + ")";
   }

   // lvalue denoted by a pointer value, following chains of GEPs so that CBMC sees member/index paths instead of
   // pointers with symbolic offsets. Returns false if V is not a GEP.
   struct LV { string pre; Type *ty = nullptr; string lastIdx; bool lastIsIdx = false; };// expr = pre + (lastIsIdx ? "["+lastIdx+"]" : "")
   static string lvs( const LV &l ) { return l.lastIsIdx ? l.pre + "[" + l.lastIdx + "]" : l.pre; }
   bool lval( Value *V, LV &r, const std::function<string( Value * )> &val, int depth = 0 )
   {
      auto *G = dyn_cast<GEPOperator>( V );
      if( !G || depth > 12 ) return false;
      Type *S = G->getSourceElementType();
      SmallVector<Value *, 8> ix( G->idx_begin(), G->idx_end() );
      auto idxs = [&]( Value *i ) -> string {
         if( auto *c = dyn_cast<ConstantInt>( i ) ) return std::to_string( c->getSExtValue() );
         return "(s64)(" + sty( i->getType() ) + ")" + val( i );
      };
      auto isZero = [&]( Value *i ) { auto *c = dyn_cast<ConstantInt>( i ); return c && c->isZero(); };
      LV b;
      Value *P = G->getPointerOperand();
      bool haveBase = false;
      if( lval( P, b, val, depth + 1 ) ) haveBase = true;
      else if( auto *A = dyn_cast<AllocaInst>( P ) )
      {
         auto *k = dyn_cast<ConstantInt>( A->getArraySize() );
         if( k && k->isOne() ) { b.pre = "al_" + val( A ); b.ty = A->getAllocatedType(); haveBase = true; }
      }
      else if( auto *GV = dyn_cast<GlobalVariable>( P ) )
         if( GV->getValueType()->isSized() ) { b.pre = gvname( GV ); b.ty = GV->getValueType(); haveBase = true; }
      if( haveBase )
      {
         // descend into first elements until the types agree
         Type *t = b.ty;
         string suffix;
         LV c = b;
         while( t != S )
         {
            if( auto *ST = dyn_cast<StructType>( t ) )
            {
               if( !ST->getNumElements() || ST->isOpaque() ) break;
               c.pre = lvs( c ) + ".f0"; c.lastIsIdx = false;
               t = ST->getElementType( 0 );
            }
            else if( auto *AT = dyn_cast<ArrayType>( t ) )
            {
               if( !AT->getNumElements() ) break;
               c.pre = lvs( c ); c.lastIsIdx = true; c.lastIdx = "0";
               t = AT->getElementType();
            }
            else break;
         }
         if( t != S ) haveBase = false;
         else if( !isZero( ix[0] ) )
         {
            if( !c.lastIsIdx ) haveBase = false;
            else c.lastIdx = c.lastIdx == "0" ? idxs( ix[0] ) : "(" + c.lastIdx + ")+(" + idxs( ix[0] ) + ")";
         }
         if( haveBase ) { r = c; r.ty = S; }
      }
      if( !haveBase )
      {
         r.pre = "((" + cty( S ) + "*)" + val( P ) + ")";
         r.lastIsIdx = true;
         r.lastIdx = idxs( ix[0] );
         r.ty = S;
         if( isZero( ix[0] ) ) { r.pre = "(*(" + cty( S ) + "*)" + val( P ) + ")"; r.lastIsIdx = false; }
      }
      for( size_t i = 1; i < ix.size(); i++ )
      {
         if( auto *ST = dyn_cast<StructType>( r.ty ) )
         {
            unsigned k = cast<ConstantInt>( ix[i] )->getZExtValue();
            r.pre = lvs( r ) + ".f" + std::to_string( k );
            r.lastIsIdx = false;
            r.ty = ST->getElementType( k );
         }
         else if( auto *AT = dyn_cast<ArrayType>( r.ty ) )
         {
            r.pre = lvs( r );
            r.lastIsIdx = true;
            r.lastIdx = idxs( ix[i] );
            r.ty = AT->getElementType();
         }
         else
            die( "gep into vector" );
      }
      return true;
   }
   // the memory cell of type T that pointer V denotes
   string cell( Value *V, Type *T, const std::function<string( Value * )> &val )
   {
      LV l;
      if( auto *A = dyn_cast<AllocaInst>( V ) )
      {
         auto *k = dyn_cast<ConstantInt>( A->getArraySize() );
         if( k && k->isOne() ) { l.pre = "al_" + val( A ); l.ty = A->getAllocatedType(); }
      }
      else if( auto *GV = dyn_cast<GlobalVariable>( V ) )
      {
         if( GV->getValueType()->isSized() ) { l.pre = gvname( GV ); l.ty = GV->getValueType(); }
      }
      else
         lval( V, l, val );
      if( l.ty )
      {
         while( l.ty != T )
         {
            if( auto *ST = dyn_cast<StructType>( l.ty ) )
            {
               if( ST->isOpaque() || !ST->getNumElements() ) break;
               l.pre = lvs( l ) + ".f0"; l.lastIsIdx = false; l.ty = ST->getElementType( 0 );
            }
            else if( auto *AT = dyn_cast<ArrayType>( l.ty ) )
            {
               if( !AT->getNumElements() ) break;
               l.pre = lvs( l ); l.lastIsIdx = true; l.lastIdx = "0"; l.ty = AT->getElementType();
            }
            else break;
         }
         if( l.ty == T && !( isa<GlobalVariable>( V ) && cast<GlobalVariable>( V )->isConstant() && false ) ) return lvs( l );
         return "(*(" + cty( T ) + "*)&" + lvs( l ) + ")";
      }
      return "(*(" + cty( T ) + "*)" + val( V ) + ")";
   }

   string constant( Constant *C, bool init = false )
   {
      if( auto *CI = dyn_cast<ConstantInt>( C ) ) return intLit( CI->getValue(), C->getType() );
      if( auto *CF = dyn_cast<ConstantFP>( C ) ) return fpLit( CF );
      if( isa<ConstantPointerNull>( C ) ) return "((ptr)0)";
      if( auto *F = dyn_cast<Function>( C ) ) return "((ptr)" + fname( F ) + ")";
      if( auto *G = dyn_cast<GlobalVariable>( C ) ) return "((ptr)&" + gvname( G ) + ")";
      if( auto *A = dyn_cast<GlobalAlias>( C ) ) return constant( cast<Constant>( A->getAliaseeObject() ), init );
      if( isa<UndefValue>( C ) )
      {
         if( init ) return zeroInit( C->getType() );
         return undefVal( C->getType() );
      }
      if( auto *CE = dyn_cast<ConstantExpr>( C ) )
      {
         switch( CE->getOpcode() )
         {
            case Instruction::GetElementPtr: {
               auto *G = cast<GEPOperator>( CE );
               SmallVector<Value *, 8> ix( G->idx_begin(), G->idx_end() );
               return gep( G->getSourceElementType(), constant( cast<Constant>( G->getPointerOperand() ) ), ix,
                           [&]( Value *v ) { return constant( cast<Constant>( v ) ); } );
            }
            case Instruction::PtrToInt: return "((" + cty( CE->getType() ) + ")" + constant( CE->getOperand( 0 ) ) + ")";
            case Instruction::IntToPtr: return "((ptr)" + constant( CE->getOperand( 0 ) ) + ")";
            case Instruction::Sub: return "(" + constant( CE->getOperand( 0 ) ) + "-" + constant( CE->getOperand( 1 ) ) + ")";
            case Instruction::Add: return "(" + constant( CE->getOperand( 0 ) ) + "+" + constant( CE->getOperand( 1 ) ) + ")";
            case Instruction::Trunc: return "((" + cty( CE->getType() ) + ")" + constant( CE->getOperand( 0 ) ) + ")";
            case Instruction::ICmp: {
               auto p = (CmpInst::Predicate) CE->getPredicate();
               return "((_Bool)((u64)" + constant( CE->getOperand( 0 ) ) + ( p == CmpInst::ICMP_EQ ? "==" : p == CmpInst::ICMP_NE ? "!=" : "<" ) + "(u64)" + constant( CE->getOperand( 1 ) ) + "))";
            }
            default: {
               string s; raw_string_ostream os( s ); CE->print( os );
               die( "constant expr " + s );
            }
         }
      }
      if( init )
      {
         if( auto *CZ = dyn_cast<ConstantAggregateZero>( C ) ) return zeroInit( CZ->getType() );
         if( auto *CD = dyn_cast<ConstantDataSequential>( C ) )
         {
            string s = isa<FixedVectorType>( C->getType() ) ? "{{" : "{";
            for( unsigned i = 0; i < CD->getNumElements(); i++ )
            {
               if( i ) s += ",";
               if( CD->getElementType()->isIntegerTy() )
                  s += std::to_string( CD->getElementAsInteger( i ) ) + ( CD->getElementType()->getIntegerBitWidth() == 64 ? "ull" : "u" );
               else
                  s += constant( CD->getElementAsConstant( i ), true );
            }
            return s + ( isa<FixedVectorType>( C->getType() ) ? "}}" : "}" );
         }
         if( isa<ConstantStruct>( C ) || isa<ConstantArray>( C ) )
         {
            string s = "{";
            for( unsigned i = 0; i < C->getNumOperands(); i++ )
            {
               if( i ) s += ",";
               s += constant( cast<Constant>( C->getOperand( i ) ), true );
            }
            return s + "}";
         }
      }
      else if( isa<ConstantAggregateZero>( C ) || isa<ConstantStruct>( C ) || isa<ConstantDataSequential>( C ) || isa<ConstantVector>( C ) )
      {
         if( auto *CV = dyn_cast<ConstantVector>( C ) )
         {
            string s = "((" + cty( C->getType() ) + "){{";
            for( unsigned i = 0; i < CV->getNumOperands(); i++ ) s += ( i ? "," : "" ) + constant( CV->getOperand( i ) );
            return s + "}})";
         }
         return "((" + cty( C->getType() ) + ")" + constant( C, true ) + ")";
      }
      string s; raw_string_ostream os( s ); C->print( os );
      die( "constant " + s );
   }

   string zeroInit( Type *T )
   {
      if( T->isPointerTy() ) return "((ptr)0)";
      if( T->isIntegerTy() || T->isFloatingPointTy() ) return "0";
      if( auto *ST = dyn_cast<StructType>( T ) ) if( ST->getNumElements() == 0 ) return "{}";
      if( auto *AT = dyn_cast<ArrayType>( T ) ) if( AT->getNumElements() == 0 ) return "{}";
      if( auto *ST = dyn_cast<StructType>( T ) ) return "{" + zeroInit( ST->getElementType( 0 ) ) + "}";
      if( auto *AT = dyn_cast<ArrayType>( T ) ) return "{" + zeroInit( AT->getElementType() ) + "}";
      return "{0}";
   }

   std::set<Type *> undefTypes;
   string undefVal( Type *T )
   {
      if( T->isPointerTy() ) return "((ptr)0)";
      string n = "nd_" + san( cty( T ) );
      undefTypes.insert( T );
      return n + "()";
   }

   // ---------------- function translation -------------------
   void translate( Function *F )
   {
      std::map<Value *, string> nm;
      unsigned cnt = 0;
      for( Argument &A: F->args() ) nm[&A] = "a" + std::to_string( A.getArgNo() );
      DominatorTree DT( *F );
      LoopInfo LI( DT );

      // block order: loop-contiguous reverse post order over normal edges
      std::vector<BasicBlock *> order;
      std::set<BasicBlock *> seen;
      std::function<void( BasicBlock * )> dfs = [&]( BasicBlock *B ) {
         seen.insert( B );
         std::vector<BasicBlock *> succ;
         auto *T = B->getTerminator();
         if( auto *II = dyn_cast<InvokeInst>( T ) ) succ.push_back( II->getNormalDest() );
         else
            for( unsigned i = 0; i < T->getNumSuccessors(); i++ ) succ.push_back( T->getSuccessor( i ) );
         std::stable_sort( succ.begin(), succ.end(), [&]( BasicBlock *x, BasicBlock *y ) {
            // exits of the current loop first: fewer shared loops first
            auto depth = [&]( BasicBlock *s ) {
               unsigned d = 0;
               for( Loop *L = LI.getLoopFor( B ); L; L = L->getParentLoop() )
                  if( L->contains( s ) ) d++;
               return d;
            };
            return depth( x ) < depth( y );
         } );
         for( auto *s: succ )
            if( !seen.count( s ) ) dfs( s );
         order.push_back( B );
      };
      dfs( &F->getEntryBlock() );
      std::reverse( order.begin(), order.end() );
      std::map<BasicBlock *, unsigned> bidx;
      for( unsigned i = 0; i < order.size(); i++ ) bidx[order[i]] = i;

      std::ostringstream decl, body;
      auto nameOf = [&]( Value *V ) -> string {
         auto it = nm.find( V );
         if( it != nm.end() ) return it->second;
         string n = "v" + std::to_string( cnt++ );
         nm[V] = n;
         return n;
      };
      // declare all
      for( BasicBlock *B: order )
         for( Instruction &I: *B )
         {
            if( auto *AI = dyn_cast<AllocaInst>( &I ) )
            {
               string n = nameOf( &I );
               if( !isa<ConstantInt>( AI->getArraySize() ) ) die( "dynamic alloca in " + F->getName().str() );
               uint64_t k = cast<ConstantInt>( AI->getArraySize() )->getZExtValue();
               if( k == 1 ) decl << "  " << cty( AI->getAllocatedType() ) << " al_" << n << ";\n";
               else decl << "  " << cty( AI->getAllocatedType() ) << " al_" << n << "[" << k << "];\n";
               decl << "  ptr " << n << " = (ptr)&al_" << n << ";\n";
               continue;
            }
            if( isa<LandingPadInst>( &I ) ) continue;
            if( !I.getType()->isVoidTy() )
            {
               string n = nameOf( &I );
               if( auto *II = dyn_cast<IntrinsicInst>( &I ) )
                  if( II->getIntrinsicID() == Intrinsic::assume ) continue;
               if( isa<ArrayType>( I.getType() ) ) die( "array valued SSA in " + F->getName().str() );
               decl << "  " << cty( I.getType() ) << " " << n << ";\n";
               if( isa<PHINode>( &I ) ) decl << "  " << cty( I.getType() ) << " p_" << n << ";\n";
            }
         }
      auto val = [&]( Value *V ) -> string {
         if( auto *C = dyn_cast<Constant>( V ) ) return constant( C );
         return nameOf( V );
      };
      std::function<string( Value * )> valf = val;
      auto sval = [&]( Value *V ) { return "((" + sty( V->getType() ) + ")" + val( V ) + ")"; };

      auto edge = [&]( BasicBlock *from, BasicBlock *to, const string &ind ) {
         std::vector<PHINode *> ph;
         for( Instruction &I: *to )
            if( auto *P = dyn_cast<PHINode>( &I ) ) ph.push_back( P );
            else break;
         // only copy through temporaries when needed
         bool need = false;
         for( auto *P: ph )
            for( auto *Q: ph )
               if( P != Q && Q->getIncomingValueForBlock( from ) == P ) need = true;
         if( !need )
            for( auto *P: ph )
            {
               Value *v = P->getIncomingValueForBlock( from );
               if( v == P ) continue;
               if( isa<UndefValue>( v ) ) continue;
               body << ind << nameOf( P ) << " = " << val( v ) << ";\n";
            }
         else
         {
            for( auto *P: ph ) body << ind << "p_" << nameOf( P ) << " = " << val( P->getIncomingValueForBlock( from ) ) << ";\n";
            for( auto *P: ph ) body << ind << nameOf( P ) << " = p_" << nameOf( P ) << ";\n";
         }
         body << ind << "goto B" << bidx.at( to ) << ";\n";
      };

      string curLoc;
      for( unsigned bi = 0; bi < order.size(); bi++ )
      {
         BasicBlock *B = order[bi];
         body << "B" << bi << ": ;\n";
         for( Instruction &I: *B )
         {
            if( isa<PHINode>( &I ) || isa<LandingPadInst>( &I ) || isa<AllocaInst>( &I ) ) continue;
            if( isa<DbgInfoIntrinsic>( &I ) ) continue;
            if( const DebugLoc &L = I.getDebugLoc() )
            {
               auto *sc = cast<DILocation>( L.get() );
               string f = sc->getFilename().str();
               string loc = "#line " + std::to_string( std::max( 1u, sc->getLine() ) ) + " \"" + f + "\"\n";
               if( loc != curLoc ) { body << loc; curLoc = loc; }
            }
            string lhs = I.getType()->isVoidTy() ? "  " : "  " + nameOf( &I ) + " = ";
            auto op = [&]( unsigned k ) { return I.getOperand( k ); };
            if( auto *BO = dyn_cast<BinaryOperator>( &I ) )
            {
               string t = cty( I.getType() );
               if( isa<FixedVectorType>( I.getType() ) )
               {
                  auto *VT = cast<FixedVectorType>( I.getType() );
                  const char *o = nullptr;
                  switch( BO->getOpcode() )
                  {
                     case Instruction::Add: case Instruction::FAdd: o = "+"; break;
                     case Instruction::Sub: case Instruction::FSub: o = "-"; break;
                     case Instruction::Or: o = "|"; break;
                     case Instruction::And: o = "&"; break;
                     case Instruction::Xor: o = "^"; break;
                     default: die( "vector op" );
                  }
                  string va = nameOf( &I );
                  string x = val( op( 0 ) ), y = val( op( 1 ) );
                  for( unsigned k = 0; k < VT->getNumElements(); k++ )
                     body << "  " << va << ".a[" << k << "] = " << x << ".a[" << k << "] " << o << " " << y << ".a[" << k << "];\n";
                  continue;
               }
               string x = val( op( 0 ) ), y = val( op( 1 ) );
               if( BO->getOpcode() == Instruction::Sub && isa<PtrToIntInst>( op( 0 ) ) && isa<PtrToIntInst>( op( 1 ) ) && I.getType()->isIntegerTy( 64 ) )
               {
                  // difference of two pointers: within one object the difference of the offsets, in a form CBMC's simplifier folds
                  string a = val( cast<PtrToIntInst>( op( 0 ) )->getOperand( 0 ) ), b = val( cast<PtrToIntInst>( op( 1 ) )->getOperand( 0 ) );
                  body << lhs << "__CPROVER_POINTER_OBJECT(" << a << ")==__CPROVER_POINTER_OBJECT(" << b << ") ? (u64)__CPROVER_POINTER_OFFSET(" << a << ")-(u64)__CPROVER_POINTER_OFFSET(" << b << ") : " << x << "-" << y << ";\n";
                  continue;
               }
               switch( BO->getOpcode() )
               {
                  case Instruction::Add:
                  case Instruction::Sub:
                  case Instruction::Mul:
                  case Instruction::UDiv:
                  case Instruction::URem:
                  case Instruction::And:
                  case Instruction::Or:
                  case Instruction::Xor:
                  case Instruction::Shl:
                  case Instruction::LShr: {
                     static std::map<unsigned, const char *> m { { Instruction::Add, "+" }, { Instruction::Sub, "-" }, { Instruction::Mul, "*" }, { Instruction::UDiv, "/" }, { Instruction::URem, "%" }, { Instruction::And, "&" }, { Instruction::Or, "|" }, { Instruction::Xor, "^" }, { Instruction::Shl, "<<" }, { Instruction::LShr, ">>" } };
                     if( I.getType()->isIntegerTy( 1 ) && ( BO->getOpcode() == Instruction::Xor || BO->getOpcode() == Instruction::Add || BO->getOpcode() == Instruction::Sub ) )
                        body << lhs << x << " != " << y << ";\n";
                     else if( ( BO->getOpcode() == Instruction::UDiv || BO->getOpcode() == Instruction::URem ) )
                     {
                        body << "  VF_DIV(" << y << " != 0);\n";
                        body << lhs << "(" << t << ")(" << x << " " << m[BO->getOpcode()] << " " << y << ");\n";
                     }
                     else
                        body << lhs << "(" << t << ")(" << x << " " << m[BO->getOpcode()] << " " << y << ");\n";
                     break;
                  }
                  case Instruction::SDiv:
                  case Instruction::SRem:
                     body << "  VF_DIV(" << y << " != 0);\n";
                     body << lhs << "(" << t << ")(" << sval( op( 0 ) ) << ( BO->getOpcode() == Instruction::SDiv ? "/" : "%" ) << sval( op( 1 ) ) << ");\n";
                     break;
                  case Instruction::AShr: body << lhs << "(" << t << ")(" << sval( op( 0 ) ) << " >> " << y << ");\n"; break;
                  case Instruction::FAdd: body << lhs << x << " + " << y << ";\n"; break;
                  case Instruction::FSub: body << lhs << x << " - " << y << ";\n"; break;
                  case Instruction::FMul: body << lhs << x << " * " << y << ";\n"; break;
                  case Instruction::FDiv: body << lhs << x << " / " << y << ";\n"; break;
                  default: die( "binop" );
               }
               continue;
            }
            if( auto *UO = dyn_cast<UnaryOperator>( &I ) ) { (void) UO; body << lhs << "-" << val( op( 0 ) ) << ";\n"; continue; }
            if( auto *IC = dyn_cast<ICmpInst>( &I ) )
            {
               string x, y;
               bool isP = op( 0 )->getType()->isPointerTy();
               if( isa<FixedVectorType>( op( 0 )->getType() ) ) die( "vector icmp" );
               if( isP && !IC->isEquality() ) { x = "(u64)" + val( op( 0 ) ); y = "(u64)" + val( op( 1 ) ); }
               else if( IC->isSigned() ) { x = sval( op( 0 ) ); y = sval( op( 1 ) ); }
               else { x = val( op( 0 ) ); y = val( op( 1 ) ); }
               const char *o = "==";
               switch( IC->getPredicate() )
               {
                  case CmpInst::ICMP_EQ: o = "=="; break;
                  case CmpInst::ICMP_NE: o = "!="; break;
                  case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: o = ">"; break;
                  case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: o = ">="; break;
                  case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: o = "<"; break;
                  case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: o = "<="; break;
                  default: die( "icmp" );
               }
               if( isP && IC->isEquality() && !isa<Constant>( op( 0 ) ) && !isa<Constant>( op( 1 ) ) )
                  // object and offset compared separately: what CBMC's pointer equality means, in a form its simplifier folds
                  body << lhs << ( o[0] == '!' ? "!" : "" ) << "(__CPROVER_POINTER_OFFSET(" << x << ")==__CPROVER_POINTER_OFFSET(" << y << ") && __CPROVER_POINTER_OBJECT(" << x << ")==__CPROVER_POINTER_OBJECT(" << y << "));\n";
               else
                  body << lhs << x << " " << o << " " << y << ";\n";
               continue;
            }
            if( auto *FC = dyn_cast<FCmpInst>( &I ) )
            {
               string x = val( op( 0 ) ), y = val( op( 1 ) );
               string un = "(vf_isnan(" + x + ")||vf_isnan(" + y + "))";
               string e;
               switch( FC->getPredicate() )
               {
                  case CmpInst::FCMP_FALSE: e = "0"; break;
                  case CmpInst::FCMP_TRUE: e = "1"; break;
                  case CmpInst::FCMP_OEQ: e = x + " == " + y; break;
                  case CmpInst::FCMP_OGT: e = x + " > " + y; break;
                  case CmpInst::FCMP_OGE: e = x + " >= " + y; break;
                  case CmpInst::FCMP_OLT: e = x + " < " + y; break;
                  case CmpInst::FCMP_OLE: e = x + " <= " + y; break;
                  case CmpInst::FCMP_ONE: e = "!" + un + " && " + x + " != " + y; break;
                  case CmpInst::FCMP_ORD: e = "!" + un; break;
                  case CmpInst::FCMP_UNO: e = un; break;
                  case CmpInst::FCMP_UEQ: e = un + " || " + x + " == " + y; break;
                  case CmpInst::FCMP_UGT: e = "!(" + x + " <= " + y + ")"; break;
                  case CmpInst::FCMP_UGE: e = "!(" + x + " < " + y + ")"; break;
                  case CmpInst::FCMP_ULT: e = "!(" + x + " >= " + y + ")"; break;
                  case CmpInst::FCMP_ULE: e = "!(" + x + " > " + y + ")"; break;
                  case CmpInst::FCMP_UNE: e = x + " != " + y; break;
                  default: die( "fcmp" );
               }
               body << lhs << e << ";\n";
               continue;
            }
            if( auto *CI = dyn_cast<CastInst>( &I ) )
            {
               string x = val( op( 0 ) ), t = cty( I.getType() );
               switch( CI->getOpcode() )
               {
                  case Instruction::Trunc:
                     if( I.getType()->isIntegerTy( 1 ) ) body << lhs << "(_Bool)(" << x << " & 1);\n";
                     else body << lhs << "(" << t << ")" << x << ";\n";
                     break;
                  case Instruction::ZExt: body << lhs << "(" << t << ")" << x << ";\n"; break;
                  case Instruction::SExt:
                     if( op( 0 )->getType()->isIntegerTy( 1 ) ) body << lhs << x << " ? (" << t << ")-1 : (" << t << ")0;\n";
                     else body << lhs << "(" << t << ")(" << sty( I.getType() ) << ")" << sval( op( 0 ) ) << ";\n";
                     break;
                  case Instruction::FPExt:
                  case Instruction::FPTrunc: body << lhs << "(" << t << ")" << x << ";\n"; break;
                  case Instruction::FPToSI: body << lhs << "(" << t << ")(" << sty( I.getType() ) << ")" << x << ";\n"; break;
                  case Instruction::FPToUI: body << lhs << "(" << t << ")" << x << ";\n"; break;
                  case Instruction::SIToFP: body << lhs << "(" << t << ")" << sval( op( 0 ) ) << ";\n"; break;
                  case Instruction::UIToFP: body << lhs << "(" << t << ")" << x << ";\n"; break;
                  case Instruction::PtrToInt: body << lhs << "(" << t << ")" << x << ";\n"; break;
                  case Instruction::IntToPtr: body << lhs << "(ptr)" << x << ";\n"; break;
                  case Instruction::BitCast: {
                     Type *A = op( 0 )->getType(), *Bt = I.getType();
                     if( A->isDoubleTy() && Bt->isIntegerTy( 64 ) ) body << lhs << "vf_d2bits(" << x << ");\n";
                     else if( A->isIntegerTy( 64 ) && Bt->isDoubleTy() ) body << lhs << "vf_bits2d(" << x << ");\n";
                     else if( A->isPointerTy() ) body << lhs << x << ";\n";
                     else if( A->isFloatTy() && Bt->isIntegerTy( 32 ) ) body << lhs << "vf_f2bits(" << x << ");\n";
                     else die( "bitcast" );
                     break;
                  }
                  default: die( "cast" );
               }
               continue;
            }
            if( auto *G = dyn_cast<GetElementPtrInst>( &I ) )
            {
               SmallVector<Value *, 8> ix( G->idx_begin(), G->idx_end() );
               LV l;
               if( lval( G, l, valf ) ) body << lhs << "(ptr)&" << lvs( l ) << ";\n";
               else body << lhs << gep( G->getSourceElementType(), val( G->getPointerOperand() ), ix, valf ) << ";\n";
               continue;
            }
            if( auto *L = dyn_cast<LoadInst>( &I ) )
            {
               body << lhs << cell( L->getPointerOperand(), I.getType(), valf ) << ";\n";
               continue;
            }
            if( auto *S = dyn_cast<StoreInst>( &I ) )
            {
               Value *v = S->getValueOperand();
               if( isa<UndefValue>( v ) ) continue;
               Type *T = v->getType();
               if( isa<ArrayType>( T ) ) die( "array store" );
               body << "  " << cell( S->getPointerOperand(), T, valf ) << " = " << val( v ) << ";\n";
               continue;
            }
            if( auto *S = dyn_cast<SelectInst>( &I ) )
            {
               if( isa<FixedVectorType>( S->getCondition()->getType() ) ) die( "vector select" );
               body << lhs << val( S->getCondition() ) << " ? " << val( S->getTrueValue() ) << " : " << val( S->getFalseValue() ) << ";\n";
               continue;
            }
            if( isa<FreezeInst>( &I ) ) { body << lhs << val( op( 0 ) ) << ";\n"; continue; }
            if( auto *E = dyn_cast<ExtractValueInst>( &I ) )
            {
               if( isa<LandingPadInst>( E->getAggregateOperand() ) ) continue;
               string e = val( E->getAggregateOperand() );
               for( unsigned k: E->indices() ) e += ".f" + std::to_string( k );
               body << lhs << e << ";\n";
               continue;
            }
            if( auto *E = dyn_cast<InsertValueInst>( &I ) )
            {
               string n = nameOf( &I );
               if( !isa<UndefValue>( E->getAggregateOperand() ) ) body << lhs << val( E->getAggregateOperand() ) << ";\n";
               string e = n;
               for( unsigned k: E->indices() ) e += ".f" + std::to_string( k );
               body << "  " << e << " = " << val( E->getInsertedValueOperand() ) << ";\n";
               continue;
            }
            if( auto *E = dyn_cast<ExtractElementInst>( &I ) ) { body << lhs << val( E->getVectorOperand() ) << ".a[" << val( E->getIndexOperand() ) << "];\n"; continue; }
            if( auto *E = dyn_cast<InsertElementInst>( &I ) )
            {
               string n = nameOf( &I );
               if( !isa<UndefValue>( op( 0 ) ) ) body << lhs << val( op( 0 ) ) << ";\n";
               body << "  " << n << ".a[" << val( op( 2 ) ) << "] = " << val( op( 1 ) ) << ";\n";
               (void) E;
               continue;
            }
            if( auto *SV = dyn_cast<ShuffleVectorInst>( &I ) )
            {
               string n = nameOf( &I );
               auto mask = SV->getShuffleMask();
               unsigned nn = cast<FixedVectorType>( op( 0 )->getType() )->getNumElements();
               for( unsigned k = 0; k < mask.size(); k++ )
                  if( mask[k] >= 0 )
                     body << "  " << n << ".a[" << k << "] = " << ( (unsigned) mask[k] < nn ? val( op( 0 ) ) : val( op( 1 ) ) ) << ".a[" << ( mask[k] % nn ) << "];\n";
               continue;
            }
            if( auto *RI = dyn_cast<ReturnInst>( &I ) )
            {
               if( RI->getReturnValue() ) body << "  return " << val( RI->getReturnValue() ) << ";\n";
               else body << "  return;\n";
               continue;
            }
            if( auto *BI = dyn_cast<BranchInst>( &I ) )
            {
               if( BI->isUnconditional() ) edge( B, BI->getSuccessor( 0 ), "  " );
               else
               {
                  body << "  if(" << val( BI->getCondition() ) << ") {\n";
                  edge( B, BI->getSuccessor( 0 ), "    " );
                  body << "  } else {\n";
                  edge( B, BI->getSuccessor( 1 ), "    " );
                  body << "  }\n";
               }
               continue;
            }
            if( auto *SI = dyn_cast<SwitchInst>( &I ) )
            {
               for( auto &c: SI->cases() )
               {
                  body << "  if(" << val( SI->getCondition() ) << " == " << constant( c.getCaseValue() ) << ") {\n";
                  edge( B, c.getCaseSuccessor(), "    " );
                  body << "  }\n";
               }
               edge( B, SI->getDefaultDest(), "  " );
               continue;
            }
            if( isa<UnreachableInst>( &I ) )
            {
               body << "  VF_UNREACHABLE;\n";
               if( F->getReturnType()->isVoidTy() ) body << "  return;\n";
               else body << "  { " << cty( F->getReturnType() ) << " u; return u; }\n";
               continue;
            }
            if( isa<ResumeInst>( &I ) ) { body << "  VF_UNREACHABLE;\n"; continue; }
            if( auto *CB = dyn_cast<CallBase>( &I ) )
            {
               call( *CB, body, lhs, val, nameOf );
               if( auto *II = dyn_cast<InvokeInst>( &I ) ) edge( B, II->getNormalDest(), "  " );
               continue;
            }
            if( isa<FenceInst>( &I ) ) continue;
            if( auto *RM = dyn_cast<AtomicRMWInst>( &I ) )
            {
               string t = cty( I.getType() );
               string p = "*(" + t + "*)" + val( RM->getPointerOperand() );
               body << lhs << p << ";\n";
               const char *o = RM->getOperation() == AtomicRMWInst::Add ? "+" : RM->getOperation() == AtomicRMWInst::Sub ? "-" : nullptr;
               if( !o ) die( "atomicrmw" );
               body << "  " << p << " = (" << t << ")(" << p << o << val( RM->getValOperand() ) << ");\n";
               continue;
            }
            string s; raw_string_ostream os( s ); I.print( os );
            die( "unsupported instruction " + s + " in " + F->getName().str() );
         }
      }
      out << "/* " << demangle( F->getName().str() ) << " */\n";
      out << "#line 1 \"" << san( F->getName() ).substr( 0, 80 ) << "\"\n";
      out << fproto( F ) << "\n{\n" << decl.str() << body.str() << "}\n\n";
      string file = "?";
      unsigned line = 0;
      if( auto *SP = F->getSubprogram() ) { file = SP->getFilename().str(); line = SP->getLine(); }
      report << "BODY\t" << F->getName().str() << "\t" << demangle( F->getName().str() ) << "\t" << file << ":" << line << "\n";
   }

   Type *pointee( Value *V )
   {
      if( auto *A = dyn_cast<AllocaInst>( V ) ) return A->getAllocatedType();
      if( auto *G = dyn_cast<GEPOperator>( V ) ) return G->getResultElementType();
      if( auto *G = dyn_cast<GlobalVariable>( V ) ) return G->getValueType();
      if( auto *A = dyn_cast<Argument>( V ) )
      {
         if( A->hasStructRetAttr() ) return A->getParamStructRetType();
         if( A->hasByValAttr() ) return A->getParamByValType();
      }
      return nullptr;
   }

   // find a type with the given size at the start of what V points to
   Type *typeOfSize( Value *V, uint64_t sz )
   {
      Type *T = pointee( V );
      while( T )
      {
         if( !T->isSized() ) return nullptr;
         if( DL->getTypeAllocSize( T ) == sz ) return T;
         if( DL->getTypeAllocSize( T ) < sz ) return nullptr;
         if( auto *ST = dyn_cast<StructType>( T ) ) T = ST->getNumElements() ? ST->getElementType( 0 ) : nullptr;
         else if( auto *AT = dyn_cast<ArrayType>( T ) ) T = AT->getNumElements() ? AT->getElementType() : nullptr;
         else return nullptr;
      }
      return nullptr;
   }

   // innermost scalar type at pointer
   Type *scalarAt( Value *V )
   {
      Type *T = pointee( V );
      while( T )
      {
         if( auto *ST = dyn_cast<StructType>( T ) ) T = ST->getNumElements() ? ST->getElementType( 0 ) : nullptr;
         else if( auto *AT = dyn_cast<ArrayType>( T ) ) T = AT->getElementType();
         else return T;
      }
      return nullptr;
   }

   // flatten T into scalar leaves (offset,type); returns false if too many
   bool leaves( Type *T, uint64_t off, std::vector<std::pair<uint64_t, Type *>> &o, size_t lim = 128 )
   {
      if( o.size() > lim ) return false;
      if( auto *ST = dyn_cast<StructType>( T ) )
      {
         auto *SL = DL->getStructLayout( ST );
         for( unsigned i = 0; i < ST->getNumElements(); i++ )
            if( !leaves( ST->getElementType( i ), off + SL->getElementOffset( i ), o, lim ) ) return false;
         return true;
      }
      if( auto *AT = dyn_cast<ArrayType>( T ) )
      {
         for( unsigned i = 0; i < AT->getNumElements(); i++ )
            if( !leaves( AT->getElementType(), off + i * DL->getTypeAllocSize( AT->getElementType() ), o, lim ) ) return false;
         return true;
      }
      o.push_back( { off, T } );
      return true;
   }

   template<class V, class N>
   void call( CallBase &CB, std::ostringstream &body, const string &lhs, V val, N nameOf )
   {
      if( CB.isInlineAsm() ) { unsupported.insert( "inline asm" ); return; }
      Value *cv = CB.getCalledOperand()->stripPointerCasts();
      if( auto *GA = dyn_cast<GlobalAlias>( cv ) ) cv = GA->getAliaseeObject();
      Function *callee = dyn_cast<Function>( cv );
      if( callee )
      {
         if( callee->isIntrinsic() )
         {
            intrinsic( CB, callee, body, lhs, val );
            return;
         }
         string fn = callee->getName().str();
         if( fn == "vf_assert" || fn == "vf_cover" )
         {
            string msg = "?";
            if( auto *G = dyn_cast<GlobalVariable>( CB.getArgOperand( 1 )->stripPointerCasts() ) )
               if( auto *CD = dyn_cast<ConstantDataArray>( G->getInitializer() ) ) msg = CD->getAsString().rtrim( '\0' ).str();
            if( fn == "vf_cover" ) body << "  VF_COVER(" << val( CB.getArgOperand( 0 ) ) << ", \"" << msg << "\");\n";
            else body << "  __CPROVER_assert(" << val( CB.getArgOperand( 0 ) ) << ", \"" << msg << "\");\n";
            return;
         }
         if( fn == "vf_assume" ) { body << "  __CPROVER_assume(" << val( CB.getArgOperand( 0 ) ) << ");\n"; return; }
         if( fn == "vf_havoc" )
         {
            Type *T = pointee( CB.getArgOperand( 0 )->stripPointerCasts() );
            if( !T ) die( "vf_havoc of unknown object" );
            body << "  { " << cty( T ) << " x; *(" << cty( T ) << "*)" << val( CB.getArgOperand( 0 ) ) << " = x; }\n";
            return;
         }
         std::ostringstream a;
         string pre;
         Function *tgt = target( callee );
         string nm = fname( callee );
         unsigned np = tgt->getFunctionType()->getNumParams();
         for( unsigned i = 0; i < CB.arg_size(); i++ )
         {
            if( i ) a << ", ";
            if( CB.isByValArgument( i ) )
            {
               Type *T = CB.getParamByValType( i );
               string t = "bv" + std::to_string( bvcnt++ );
               pre += "  " + cty( T ) + " " + t + " = *(" + cty( T ) + "*)" + val( CB.getArgOperand( i ) ) + ";\n";
               a << "(ptr)&" << t;
            }
            else
               a << val( CB.getArgOperand( i ) );
         }
         (void) np;
         if( !pre.empty() ) body << "{\n" << pre;
         body << lhs << nm << "(" << a.str() << ");\n";
         if( !pre.empty() ) body << "}\n";
         return;
      }
      // indirect
      std::ostringstream a;
      for( unsigned i = 0; i < CB.arg_size(); i++ )
      {
         if( i ) a << ", ";
         if( CB.isByValArgument( i ) ) die( "byval in indirect call" );
         a << val( CB.getArgOperand( i ) );
      }
      body << lhs << "((" << fptype( CB.getFunctionType() ) << ")" << val( CB.getCalledOperand() ) << ")(" << a.str() << ");\n";
   }
   unsigned bvcnt = 0;

   template<class V>
   void intrinsic( CallBase &CB, Function *F, std::ostringstream &body, const string &lhs, V val )
   {
      auto arg = [&]( unsigned k ) { return val( CB.getArgOperand( k ) ); };
      string t = CB.getType()->isVoidTy() ? "" : cty( CB.getType() );
      switch( F->getIntrinsicID() )
      {
         case Intrinsic::lifetime_start:
         case Intrinsic::lifetime_end:
         case Intrinsic::dbg_declare:
         case Intrinsic::dbg_value:
         case Intrinsic::dbg_label:
         case Intrinsic::experimental_noalias_scope_decl:
         case Intrinsic::assume:
         case Intrinsic::invariant_start:
         case Intrinsic::prefetch:
         case Intrinsic::donothing:
            return;
         case Intrinsic::trap: body << "  VF_UNREACHABLE;\n"; return;
         case Intrinsic::expect: body << lhs << arg( 0 ) << ";\n"; return;
         case Intrinsic::is_constant: body << lhs << "0;\n"; return;
         case Intrinsic::objectsize: body << lhs << "(" << t << ")-1;\n"; return;
         case Intrinsic::memcpy:
         case Intrinsic::memmove: {
            auto *n = dyn_cast<ConstantInt>( CB.getArgOperand( 2 ) );
            Value *d = CB.getArgOperand( 0 ), *s = CB.getArgOperand( 1 );
            if( n )
            {
               uint64_t sz = n->getZExtValue();
               if( !sz ) return;
               Type *T = typeOfSize( d, sz );
               if( !T ) T = typeOfSize( s, sz );
               if( T && isa<ArrayType>( T ) )
               {
                  // element-wise via temporaries when it overlaps is impossible for memcpy; copy leaf by leaf
                  std::vector<std::pair<uint64_t, Type *>> L;
                  if( F->getIntrinsicID() == Intrinsic::memcpy && leaves( T, 0, L ) )
                  {
                     auto *AT = cast<ArrayType>( T );
                     if( isa<ArrayType>( AT->getElementType() ) || isa<StructType>( AT->getElementType() ) )
                     {
                        if( isa<StructType>( AT->getElementType() ) )
                           for( unsigned k = 0; k < AT->getNumElements(); k++ )
                              body << "  ((" << cty( AT->getElementType() ) << "*)" << val( d ) << ")[" << k << "] = ((" << cty( AT->getElementType() ) << "*)" << val( s ) << ")[" << k << "];\n";
                        else
                           body << "  vf_memcpy(" << val( d ) << ", " << val( s ) << ", " << arg( 2 ) << ");\n";
                     }
                     else
                        for( unsigned k = 0; k < AT->getNumElements(); k++ )
                           body << "  ((" << cty( AT->getElementType() ) << "*)" << val( d ) << ")[" << k << "] = ((" << cty( AT->getElementType() ) << "*)" << val( s ) << ")[" << k << "];\n";
                     return;
                  }
               }
               else if( T )
               {
                  body << "  *(" << cty( T ) << "*)" << val( d ) << " = *(" << cty( T ) << "*)" << val( s ) << ";\n";
                  return;
               }
               if( sz == 1 || sz == 2 || sz == 4 || sz == 8 )
               {
                  body << "  *(u" << sz * 8 << "*)" << val( d ) << " = *(u" << sz * 8 << "*)" << val( s ) << ";\n";
                  return;
               }
               // scalar element copy
               Type *S = scalarAt( d );
               if( !S ) S = scalarAt( s );
               uint64_t es = S ? DL->getTypeAllocSize( S ).getFixedValue() : 0;
               if( es && sz % es == 0 && sz / es <= 64 && F->getIntrinsicID() == Intrinsic::memcpy )
               {
                  for( uint64_t k = 0; k < sz / es; k++ )
                     body << "  ((" << cty( S ) << "*)" << val( d ) << ")[" << k << "] = ((" << cty( S ) << "*)" << val( s ) << ")[" << k << "];\n";
                  return;
               }
            }
            body << "  " << ( F->getIntrinsicID() == Intrinsic::memcpy ? "vf_memcpy(" : "vf_memmove(" ) << val( d ) << ", " << val( s ) << ", " << arg( 2 ) << ");\n";
            return;
         }
         case Intrinsic::memset: {
            auto *n = dyn_cast<ConstantInt>( CB.getArgOperand( 2 ) );
            auto *c = dyn_cast<ConstantInt>( CB.getArgOperand( 1 ) );
            Value *d = CB.getArgOperand( 0 );
            if( n && c && c->isZero() )
            {
               uint64_t sz = n->getZExtValue();
               if( !sz ) return;
               Type *T = typeOfSize( d, sz );
               std::vector<std::pair<uint64_t, Type *>> L;
               if( T && leaves( T, 0, L ) )
               {
                  if( auto *ST = dyn_cast<StructType>( T ) )
                  {
                     (void) ST;
                     body << "  { " << cty( T ) << " z = " << zeroInit( T ) << "; *(" << cty( T ) << "*)" << val( d ) << " = z; }\n";
                     return;
                  }
                  if( auto *AT = dyn_cast<ArrayType>( T ) )
                     if( !isa<ArrayType>( AT->getElementType() ) && !isa<StructType>( AT->getElementType() ) )
                     {
                        for( unsigned k = 0; k < AT->getNumElements(); k++ )
                           body << "  ((" << cty( AT->getElementType() ) << "*)" << val( d ) << ")[" << k << "] = 0;\n";
                        return;
                     }
               }
               Type *S = scalarAt( d );
               uint64_t es = S ? DL->getTypeAllocSize( S ).getFixedValue() : 0;
               if( es && sz % es == 0 && sz / es <= 64 )
               {
                  for( uint64_t k = 0; k < sz / es; k++ )
                     body << "  ((" << cty( S ) << "*)" << val( d ) << ")[" << k << "] = 0;\n";
                  return;
               }
               if( sz % 8 == 0 && sz <= 128 )
               {
                  for( uint64_t k = 0; k < sz / 8; k++ ) body << "  ((u64*)" << val( d ) << ")[" << k << "] = 0;\n";
                  return;
               }
            }
            body << "  vf_memset(" << val( d ) << ", " << arg( 1 ) << ", " << arg( 2 ) << ");\n";
            return;
         }
         case Intrinsic::smax: body << lhs << "((" << sty( CB.getType() ) << ")" << arg( 0 ) << " > (" << sty( CB.getType() ) << ")" << arg( 1 ) << ") ? " << arg( 0 ) << " : " << arg( 1 ) << ";\n"; return;
         case Intrinsic::smin: body << lhs << "((" << sty( CB.getType() ) << ")" << arg( 0 ) << " < (" << sty( CB.getType() ) << ")" << arg( 1 ) << ") ? " << arg( 0 ) << " : " << arg( 1 ) << ";\n"; return;
         case Intrinsic::umax: body << lhs << "(" << arg( 0 ) << " > " << arg( 1 ) << ") ? " << arg( 0 ) << " : " << arg( 1 ) << ";\n"; return;
         case Intrinsic::umin: body << lhs << "(" << arg( 0 ) << " < " << arg( 1 ) << ") ? " << arg( 0 ) << " : " << arg( 1 ) << ";\n"; return;
         case Intrinsic::abs: body << lhs << "((" << sty( CB.getType() ) << ")" << arg( 0 ) << " < 0) ? (" << t << ")(0-" << arg( 0 ) << ") : " << arg( 0 ) << ";\n"; return;
         case Intrinsic::fabs: body << lhs << "vf_fabs(" << arg( 0 ) << ");\n"; return;
         case Intrinsic::copysign: body << lhs << "vf_copysign(" << arg( 0 ) << "," << arg( 1 ) << ");\n"; return;
         case Intrinsic::trunc: body << lhs << "vf_trunc(" << arg( 0 ) << ");\n"; return;
         case Intrinsic::floor: body << lhs << "vf_floor(" << arg( 0 ) << ");\n"; return;
         case Intrinsic::ceil: body << lhs << "vf_ceil(" << arg( 0 ) << ");\n"; return;
         case Intrinsic::round: body << lhs << "vf_round(" << arg( 0 ) << ");\n"; return;
         case Intrinsic::fmuladd: body << lhs << arg( 0 ) << " * " << arg( 1 ) << " + " << arg( 2 ) << ";\n"; return;
         case Intrinsic::is_fpclass: {
            uint64_t m = cast<ConstantInt>( CB.getArgOperand( 1 ) )->getZExtValue();
            body << lhs << "vf_fpclass(" << arg( 0 ) << "," << m << ");\n";
            return;
         }
         case Intrinsic::bswap: body << lhs << "vf_bswap" << CB.getType()->getIntegerBitWidth() << "(" << arg( 0 ) << ");\n"; return;
         case Intrinsic::ctpop:
         case Intrinsic::ctlz:
         case Intrinsic::cttz:
         case Intrinsic::fshl:
         case Intrinsic::fshr: {
            string nme = Intrinsic::getBaseName( F->getIntrinsicID() ).str().substr( 5 );
            unsigned w = CB.getType()->getIntegerBitWidth();
            body << lhs << "vf_" << nme << w << "(" << arg( 0 );
            if( nme[0] == 'f' ) body << "," << arg( 1 ) << "," << arg( 2 );
            body << ");\n";
            return;
         }
         case Intrinsic::sadd_with_overflow:
         case Intrinsic::uadd_with_overflow:
         case Intrinsic::ssub_with_overflow:
         case Intrinsic::usub_with_overflow:
         case Intrinsic::smul_with_overflow:
         case Intrinsic::umul_with_overflow: {
            string nme = Intrinsic::getBaseName( F->getIntrinsicID() ).str().substr( 5 );
            bool sg = nme[0] == 's';
            string o = nme.substr( 1, 3 );
            Type *ET = cast<StructType>( CB.getType() )->getElementType( 0 );
            string c = sg ? "(" + sty( ET ) + ")" : "";
            string ov = o == "add" ? "plus" : o == "sub" ? "minus" : "mult";
            string cop = o == "add" ? "+" : o == "sub" ? "-" : "*";
            string n = lhs.substr( 2, lhs.find( " =" ) - 2 );
            body << "  " << n << ".f0 = (" << cty( ET ) << ")(" << arg( 0 ) << cop << arg( 1 ) << ");\n";
            body << "  " << n << ".f1 = __CPROVER_overflow_" << ov << "(" << c << arg( 0 ) << "," << c << arg( 1 ) << ");\n";
            return;
         }
         case Intrinsic::usub_sat: body << lhs << "(" << arg( 0 ) << " > " << arg( 1 ) << ") ? (" << t << ")(" << arg( 0 ) << " - " << arg( 1 ) << ") : 0;\n"; return;
         case Intrinsic::vastart:
         case Intrinsic::vaend:
            unsupported.insert( "va_start" );
            body << "  VF_UNREACHABLE;\n";
            return;
         case Intrinsic::load_relative: die( "load_relative" );
         case Intrinsic::eh_typeid_for: body << lhs << "0;\n"; return;
         default: die( "intrinsic " + F->getName().str() );
      }
   }

   void run( std::ostream &o, std::ostream &rep )
   {
      for( auto &e: entries )
      {
         Function *F = M.getFunction( e );
         if( !F ) die( "no entry " + e );
         fname( F );
      }
      std::ostringstream protos;
      while( !work.empty() )
      {
         Function *F = work.back();
         work.pop_back();
         if( !doneF.insert( F ).second ) continue;
         string n = F->getName().str();
         protos << fproto( F ) << ";\n";
         if( stubs.count( n ) ) { stubbedUsed.insert( n ); continue; }
         if( F->isDeclaration() )
         {
            external.insert( n );
            out << fproto( F ) << "\n{ VF_EXTERNAL(\"" << n << "\"); ";
            if( !F->getReturnType()->isVoidTy() ) out << cty( F->getReturnType() ) << " r; return r; ";
            out << "}\n";
            continue;
         }
         translate( F );
         // newly referenced globals may reference functions
         for( size_t i = 0; i < globOrder.size(); i++ )
         {
            auto *G = globOrder[i];
            if( ginit.count( G ) ) continue;
            ginit[G] = "";
            if( G->hasInitializer() && !skipInit( G ) ) ginit[G] = constant( G->getInitializer(), true );
         }
      }
      // globals
      std::ostringstream gd, gi;
      for( size_t i = 0; i < globOrder.size(); i++ )
      {
         auto *G = globOrder[i];
         if( !ginit.count( G ) )
         {
            ginit[G] = "";
            if( G->hasInitializer() && !skipInit( G ) ) ginit[G] = constant( G->getInitializer(), true );
         }
         string t = G->getValueType()->isSized() ? cty( G->getValueType() ) : "u8";
         gd << "extern " << ( G->isConstant() ? "const " : "" ) << t << " " << gvname( G ) << ";\n";
         if( G->hasInitializer() && !skipInit( G ) )
            gi << ( G->isConstant() ? "const " : "" ) << t << " " << gvname( G ) << " = " << ginit[G] << ";\n";
         else { gi << ( G->isConstant() ? "const " : "" ) << t << " " << gvname( G ) << ";\n"; report << "GLOBAL-EXTERN\t" << G->getName().str() << "\n"; }
      }
      std::ostringstream und;
      for( auto *T: undefTypes )
      {
         string c = cty( T );
         und << "static " << c << " nd_" << san( c ) << "(void) { " << c << " x; return x; }\n";
      }
      o << "/* generated by ll2c; do not edit */\n#include \"prelude.h\"\n";
      o << typeDecls.str();
      for( auto &s: sizeChecks ) o << "_Static_assert(" << s.first << " == " << s.second << ", \"layout\");\n";
      o << und.str() << gd.str() << protos.str() << gi.str() << out.str();
      o << "#include \"stubs.h\"\n";
      rep << report.str();
      for( auto &x: external ) rep << "EXTERNAL\t" << x << "\t" << demangle( x ) << "\n";
      for( auto &x: stubbedUsed ) rep << "STUB\t" << x << "\t" << demangle( x ) << "\n";
      for( auto &x: usedRepl ) rep << "REPLACED\t" << x << "\t" << demangle( x ) << "\t" << repl[x] << "\n";
      for( auto &x: unsupported ) rep << "UNSUPPORTED\t" << x << "\n";
   }
   std::map<GlobalVariable *, string> ginit;
   bool skipInit( GlobalVariable *G ) { return G->getName().starts_with( "_ZTI" ) || G->getName().starts_with( "_ZTS" ); }
};

static bool nameMatch( const string &mangled, const string &pat )
{
   if( mangled == pat ) return true;
   if( mangled.compare( 0, 2, "_Z" ) ) return false;
   string d = demangle( mangled );
   auto p = d.find( "[abi:cxx11]" );
   if( p != string::npos ) d.erase( p, 11 );
   return d == pat || ( pat.find( '(' ) == string::npos && d.substr( 0, d.find( '(' ) ) == pat );
}

static int markMode( const string &in, const string &outp, unsigned limit, const std::vector<string> &keep )
{
   LLVMContext ctx;
   SMDiagnostic err;
   auto M = parseIRFile( in, err, ctx );
   if( !M ) { err.print( "ll2c", errs() ); return 2; }
   // vf_init_globals(): runs the dynamic initialisers of the globals the harness names ("--ginit=NAME")
   if( Function *G = M->getFunction( "vf_init_globals" ); G && G->isDeclaration() )
   {
      auto *bb = BasicBlock::Create( ctx, "b", G );
      for( Function &F: *M )
      {
         if( F.isDeclaration() || !F.getName().starts_with( "__cxx_global_var_init" ) ) continue;
         bool hit = false;
         for( auto &B: F ) for( auto &I: B ) for( auto &O: I.operands() )
            if( auto *V = dyn_cast<GlobalVariable>( O->stripPointerCasts() ) )
               for( auto &k: keep )
                  if( k.rfind( "--ginit=", 0 ) == 0 && demangle( V->getName().str() ).find( k.substr( 8 ) ) != string::npos ) hit = true;
         if( hit ) CallInst::Create( F.getFunctionType(), &F, "", bb );
      }
      ReturnInst::Create( ctx, bb );
   }
   for( Function &F: *M )
   {
      if( F.isDeclaration() ) continue;
      StringRef n = F.getName();
      bool lib = n.starts_with( "_ZNSt" ) || n.starts_with( "_ZNKSt" ) || n.starts_with( "_ZSt" ) || n.starts_with( "_ZN9__gnu_cxx" ) || n.starts_with( "_ZNK9__gnu_cxx" ) || n.starts_with( "_ZNRSt" ) || n.starts_with( "_ZNRKSt" ) || n.starts_with( "_ZNOSt" );
      F.removeFnAttr( Attribute::OptimizeNone );
      bool kp = false;
      for( auto &k: keep ) if( nameMatch( n.str(), k ) ) kp = true;
      if( kp ) { F.removeFnAttr( Attribute::AlwaysInline ); F.addFnAttr( Attribute::NoInline ); continue; }
      bool mini = F.hasLinkOnceLinkage() || F.hasInternalLinkage() || F.hasAvailableExternallyLinkage();
      unsigned cnt = F.getInstructionCount();
      bool rec = false, loops = false;
      for( auto &B: F )
         for( auto &I: B )
            if( auto *C = dyn_cast<CallBase>( &I ) )
               if( C->getCalledFunction() == &F ) rec = true;
      (void) loops;
      if( rec ) continue;
      if( ( lib && cnt <= limit ) || ( mini && cnt <= 40 ) )
      {
         F.removeFnAttr( Attribute::NoInline );
         F.removeFnAttr( Attribute::InlineHint );
         F.addFnAttr( Attribute::AlwaysInline );
      }
   }
   std::error_code ec;
   raw_fd_ostream o( outp, ec );
   WriteBitcodeToFile( *M, o );
   return 0;
}

int main( int argc, char **argv )
{
   if( argc >= 4 && string( argv[1] ) == "--mark" ) 
   {
      std::vector<string> keep;
      for( int i = 4; i < argc; i++ ) keep.push_back( argv[i] );
      return markMode( argv[2], argv[3], 60, keep );
   }
   LLVMContext ctx;
   SMDiagnostic err;
   string in, outp, rep;
   std::set<string> entries, stubs;
   std::map<string, string> repl;
   for( int i = 1; i < argc; i++ )
   {
      string a = argv[i];
      if( a == "--entry" ) entries.insert( argv[++i] );
      else if( a == "--stubs" )
      {
         std::ifstream f( argv[++i] );
         string l;
         while( std::getline( f, l ) ) if( !l.empty() ) stubs.insert( l );
      }
      else if( a == "--replace" )
      {
         string s = argv[++i];
         auto p = s.find( '=' );
         repl[s.substr( 0, p )] = s.substr( p + 1 );
      }
      else if( a == "--report" ) rep = argv[++i];
      else if( in.empty() ) in = a;
      else outp = a;
   }
   auto M = parseIRFile( in, err, ctx );
   if( !M ) { err.print( "ll2c", errs() ); return 2; }
   DL = &M->getDataLayout();
   Tr t( *M );
   t.entries = entries;
   t.stubs = stubs;
   // a replacement may be given by demangled name (with or without the parameter list)
   for( auto &kv: repl )
   {
      if( M->getFunction( kv.first ) ) { t.repl[kv.first] = kv.second; continue; }
      for( Function &F: *M )
      {
         if( !F.isIntrinsic() && nameMatch( F.getName().str(), kv.first ) ) t.repl[F.getName().str()] = kv.second;
      }
   }
   std::ofstream o( outp );
   std::ofstream r( rep.empty() ? "/dev/null" : rep );
   t.run( o, r );
   return 0;
}
