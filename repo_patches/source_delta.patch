From 080669d1c939eee46b46ede30c2742c426a29302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:17 +0000
Subject: [PATCH 01/21] fix: gdxUELRegisterMap accepted a user index already
 taken by another element (or negative)

---
 src/gxfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 2f4f788..8b0bc27 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3790,6 +3790,8 @@ int TUELTable::AddUsrIndxNew( const char *s, size_t slen, int UelNr )
    int res { *GetObject( EN ) };
    if( res < 0 )
    {
+      // user index must be valid and must not belong to a different element already
+      if( UelNr < 0 || UsrUel2Ent->GetMapping( UelNr ) >= 0 ) return -1;
       res = UelNr;
       *GetObject( EN ) = res;
       UsrUel2Ent->SetMapping( res, EN );
-- 
2.43.0


From 2b3f261b37c8486746c7f032e6b06273ddae866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:28 +0000
Subject: [PATCH 02/21] fix: gdxAcronymSetInfo and gdxAcronymGetMapping crashed
 for an acronym number out of range

---
 src/gxfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 8b0bc27..6d2376b 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2994,7 +2994,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3030,7 +3030,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
-- 
2.43.0


From 435247018110f802f4a415e37e582f1cfebf63d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 03/21] fix: gdxDataReadMap relied on the caller keeping the
 previous keys in its buffer

---
 src/gxfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 6d2376b..05a3819 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2824,6 +2824,8 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
 
    bool AddNew {}, AddError {}, BadError {};
    int FIDim { FCurrentDim };
+   // only index positions that changed are mapped below, take over the others from the previous record
+   std::copy_n( PrevElem.begin(), FCurrentDim, KeyInt );
 
 again:
    if( !DoRead( Values, DimFrst ) ) return false;
-- 
2.43.0


From d2b0b565d7a7d437de4bb0d9c2767a32a1c48da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:06 +0000
Subject: [PATCH 04/21] fix: fast, slice and domain readers crashed when the
 symbol cannot be read (bad symbol number, wrong mode)

---
 src/gxfile.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 05a3819..e2e0bf4 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3136,7 +3136,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    TIndex XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
 
    // Following call also clears ErrorList
-   PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
    int AFDim;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    while( DoRead( AVals.data(), AFDim ) )
@@ -3301,9 +3301,8 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    //-- Note: PrepareSymbolRead checks for the correct status
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
    SliceSyNr = SyNr;
-   PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data );
-
    memset( ElemCounts, 0, sizeof( int ) * GLOBAL_MAX_INDEX_DIM );
+   if( PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
 
    TgdxValues Values;
    int FDim;
@@ -3673,6 +3672,7 @@ int TGXFileObj::gdxDataReadRawFast( int SyNr, TDataStoreProc_t DP, int &NrRecs )
 {
    const auto XDomains { arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED ) };
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFast"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    int AFDim;
    while( DoRead( AVals.data(), AFDim ) )
@@ -3688,6 +3688,7 @@ int TGXFileObj::gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRe
    //do not know dimension yet
    std::fill( XDomains.begin(), XDomains.end(), DOMC_UNMAPPED );
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFastEx"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, valscale + 1> AVals {};
    int AFDim;
    if( gdxDataReadRawFastEx_DP_CallByRef )
-- 
2.43.0


From c2c8c63f41923b0c557fc897d391be0e610a69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:01 +0000
Subject: [PATCH 05/21] fix: gdxClose left an unreadable file when a symbol
 without records or an element registration was pending

---
 src/gxfile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index e2e0bf4..9bde2bd 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -537,8 +537,10 @@ int TGXFileObj::gdxClose()
       debugStream << "gdxClose("s << ( FFile ? FFile->GetFileName() : ""s ) << ")\n"s;// NOTE: Not covered by unit tests yet.
 
    std::string fnConv;
-   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data ) )// unfinished write
+   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data, fw_dom_raw, fw_dom_map, fw_dom_str ) )// unfinished write
       gdxDataWriteDone();                                         // NOTE: Not covered by unit tests yet.
+   if( fstatus == stat_write && in( fmode, f_raw_elem, f_map_elem, f_str_elem ) )// unfinished registration
+      gdxUELRegisterDone();
    if( fmode == fw_init )
    {
       fnConv = FFile->GetFileName();
-- 
2.43.0


From 674faaf0b1fd203a42b65de423a5df3565615e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:14 +0000
Subject: [PATCH 06/21] fix: a data start or done call out of context discarded
 the pending write (crash or unreadable file)

---
 src/gxfile.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 9bde2bd..697ceec 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -732,12 +732,12 @@ bool TGXFileObj::PrepareSymbolWrite( const std::string_view Caller,
                                      int AType,
                                      int AUserInfo )
 {
+   if( !MajorCheckMode( Caller, fw_init ) ) return false;
+
    CurSyPtr = nullptr;
    ErrorList = nullptr;
    SortList = nullptr;
 
-   if( !MajorCheckMode( Caller, fw_init ) ) return false;
-
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "Symbol = "s + AName + ", Dim = "s + rtl::sysutils_p3::IntToStr( ADim ) );
 
@@ -882,17 +882,17 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
 {
    if( in( fmode, fr_str_data, fr_map_data, fr_mapr_data, fr_raw_data ) )
       gdxDataReadDone();// NOTE: Not covered by unit tests yet.
-   NrMappedAdded = 0;
-   ErrorList = nullptr;
-   CurSyPtr = nullptr;
-   SortList = nullptr;
-
    if( !MajorCheckMode( Caller, fr_init ) )
    {
       // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
+      if( fstatus == stat_read ) fmode = fr_init;// nothing to read otherwise, keep the state of an open write
       return -1;
    }
+   NrMappedAdded = 0;
+   ErrorList = nullptr;
+   CurSyPtr = nullptr;
+   SortList = nullptr;
+
    ReadUniverse = !SyNr;
    if( !ReadUniverse )
    {
@@ -1778,14 +1778,14 @@ int TGXFileObj::gdxDataReadStr( char **KeyStr, double *Values, int &DimFrst )
 int TGXFileObj::gdxDataReadDone()
 {
    static const TgxModeSet AllowedMode { fr_init, fr_raw_data, fr_map_data, fr_mapr_data, fr_str_data, fr_slice };
-   SortList = nullptr;
-   CurSyPtr = nullptr;
    if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) )
    {
       // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
+      if( fstatus == stat_read ) fmode = fr_init;// nothing to finish otherwise, keep the state of an open write
       return false;
    }
+   SortList = nullptr;
+   CurSyPtr = nullptr;
    /*if( fmode == fr_slice )
    {
       for( int D {}; D < GLOBAL_MAX_INDEX_DIM; D++ )
-- 
2.43.0


From 3920f71f08982ce9f0588010a6e98dbabcb263c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:46 +0000
Subject: [PATCH 07/21] fix: copying a string to a caller buffer overran it by
 one or left it unset when the string is too long

---
 src/gdlib/utils.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 25e0508..657d8f9 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -695,12 +695,9 @@ int strCompare( const char *S1,
 
 inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSize = 256 )
 {
-   if( static_cast<int>( s.length() ) > outBufSize ) return;
-#if defined( _WIN32 )
-   std::memcpy( buf, s.c_str(), s.length() + 1 );
-#else
-   std::strcpy( buf, s.c_str() );
-#endif
+   const auto n { std::min<size_t>( s.length(), static_cast<size_t>( outBufSize ) - 1 ) };// truncate when exceeding
+   std::memcpy( buf, s.c_str(), n );
+   buf[n] = '\0';
 }
 
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
-- 
2.43.0


From 811a1b0013a856aaf8eb23d62b50584bea9d7413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:50 +0000
Subject: [PATCH 08/21] fix: writing a string of more than 255 characters
 over-read the buffer and corrupted the file

---
 src/gdlib/gmsstrm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 9423d61..d9961d4 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -249,8 +249,8 @@ void TXStream::WriteString( const std::string_view s )
 #endif
    static sstring buf {};
    if( Paranoid ) ParWrite( RWType::rw_string );
-   strConvCppToDelphi( s, buf.data() );
-   Write( buf.data(), static_cast<uint32_t>( s.length() ) + 1 );
+   strConvCppToDelphi( s.substr( 0, std::numeric_limits<uint8_t>::max() ), buf.data() );
+   Write( buf.data(), static_cast<uint32_t>( static_cast<uint8_t>( buf.front() ) ) + 1 );
 }
 
 void TXStream::WriteDouble( double x )
-- 
2.43.0


From d12594e0603f266126bedf853a7dd3958f21358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:01 +0000
Subject: [PATCH 09/21] fix: gdxSymbolSetDomain accessed a nonexistent symbol
 for a domain that is an alias of the universe

---
 src/gxfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 697ceec..e3f23d8 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2495,9 +2495,11 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
          SyNr = DomSy;
          do {
             const auto *obj = ( *NameList->GetObject( SyNr ) );
+            const bool aliasOfUniverse { obj->SDataType == dt_alias && obj->SUserInfo <= 0 };
             if(!AllowBogusDomain &&
                 obj->SDim == 1 &&
                 in(obj->SDataType, dt_set, dt_alias) &&
+                !aliasOfUniverse &&
                 !(obj->SDataType == dt_alias ? *NameList->GetObject( obj->SUserInfo ) : obj)->SSetBitMap)
             {
                ReportError( ERR_NODOMAINDATA );
-- 
2.43.0


From b04f35ddf02f13e3c34cd8b2a76f90393523e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:11 +0000
Subject: [PATCH 10/21] fix: gdxFindSymbol left the symbol number unset when no
 file is open

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index e3f23d8..ec2db9f 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1743,6 +1743,7 @@ int TGXFileObj::gdxFindSymbol( const char *SyId, int &SyNr )
       SyNr = NameList->IndexOf( SyId );
       return SyNr >= 1;
    }
+   SyNr = -1;
    return false;// NOTE: Not covered by unit tests yet.
 }
 
-- 
2.43.0


From 62878685c447709ce8abe86280ca32db9770757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:21 +0000
Subject: [PATCH 11/21] fix: gdxAcronymAdd returned a zero-based position
 instead of zero for an acronym that exists already

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index ec2db9f..8e835ff 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3234,7 +3234,7 @@ int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
       {
          // NOTE: Not covered by unit tests yet.
          if( ErrorCondition( obj.AcrMap == AIndx, ERR_ACROBADADDITION ) ) return -1;
-         return N;
+         return 0;
       }
       if( ErrorCondition( obj.AcrMap != AIndx, ERR_ACROBADADDITION ) ) return -1;
    }
-- 
2.43.0


From 317b01b44f1e3abe4afd6d0423cd9b89b9b37ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:19 +0000
Subject: [PATCH 12/21] fix: acronym, domain and length queries crashed when no
 file is open

---
 src/gxfile.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 8e835ff..0d35a94 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2376,7 +2376,7 @@ int TGXFileObj::gdxSetSpecialValues( const double *AVals )
 
 int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 {
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
    for( int D {}; D < SyPtr->SDim; D++ )
       DomainSyNrs[D] = !SyPtr->SDomSymbols ? 0 : SyPtr->SDomSymbols[D];
@@ -2385,7 +2385,7 @@ int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 
 int TGXFileObj::gdxSymbolGetDomainX( int SyNr, char **DomainIDs )
 {
-   if( ErrorCondition( !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
+   if( ErrorCondition( NameList && !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
 
    for( int D {}; D < SyPtr->SDim; D++ )
@@ -2554,7 +2554,7 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
 int TGXFileObj::gdxSymbolSetDomainX( int SyNr, const char **DomainIDs )
 {
    // check for write or append only
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    TgdxSymbRecord * const SyPtr = *NameList->GetObject( SyNr );
 
    if( verboseTrace && TraceLevel == TraceLevels::trl_all )
@@ -2976,7 +2976,7 @@ int TGXFileObj::gdxAcronymCount() const
 
 int TGXFileObj::gdxAcronymGetInfo( int N, char *AName, char *Txt, int &AIndx ) const
 {
-   if( N < 1 || N > AcronymList->size() )
+   if( N < 1 || N > gdxAcronymCount() )
    {
       AName[0] = Txt[0] = '\0';
       AIndx = 0;
@@ -3001,7 +3001,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= gdxAcronymCount(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3037,7 +3037,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= gdxAcronymCount(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
@@ -3124,7 +3124,7 @@ int TGXFileObj::gdxSetTextNodeNr( int TxtNr, int Node )
 int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomainIndexProc_t DP, int &NrElem, void *UPtr )
 {
    gdxGetDomainElements_DP = DP;
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    int Dim { ( *NameList->GetObject( SyNr ) )->SDim };
    if( !Dim || ErrorCondition( DimPos >= 1 && DimPos <= Dim, ERR_BADDIMENSION ) ) return false;
    const TDFilter *DFilter = FilterNr == DOMC_EXPAND ? nullptr : FilterList->FindFilter( FilterNr );
@@ -3227,6 +3227,7 @@ int TGXFileObj::gdxSetTraceLevel( int N, const char *s )
 
 int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
 {
+   if( ErrorCondition( AcronymList != nullptr, ERR_BADMODE ) ) return -1;
    for( int N {}; N < (int) AcronymList->size(); N++ )
    {
       const auto &obj = ( *AcronymList )[N];
@@ -3257,7 +3258,7 @@ int TGXFileObj::gdxAcronymName( double V, char *AName )
       AName[0] = '\0';
    else
    {
-      const int N { AcronymList->FindEntry( Indx ) };
+      const int N { AcronymList ? AcronymList->FindEntry( Indx ) : -1 };
       assignStrToBuf( N < 0 ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
       return true;
    }
@@ -3528,7 +3529,7 @@ int TGXFileObj::gdxSymbIndxMaxLength( int SyNr, int *LengthInfo )
 int TGXFileObj::gdxSymbMaxLength() const
 {
    int acc {};
-   for( int N { 1 }; N <= NameList->Count(); N++ )
+   for( int N { 1 }; NameList && N <= NameList->Count(); N++ )
       acc = std::max<int>( acc, static_cast<int>( std::strlen( NameList->GetString( N ) ) ) );
    return acc;
 }
@@ -3570,7 +3571,7 @@ int TGXFileObj::gdxSymbolGetComment( int SyNr, int N, char *Txt )
 
 int TGXFileObj::gdxUELMaxLength() const
 {
-   return UELTable->GetMaxUELLength();
+   return UELTable ? UELTable->GetMaxUELLength() : 0;
 }
 
 int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
-- 
2.43.0


From 307e85a98915224d1adbd14d03e5059f2158afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:10 +0000
Subject: [PATCH 13/21] fix: an element name of 256 or more characters followed
 by blanks overran a fixed buffer

---
 src/gdlib/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index 602c8e7..de3611d 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -175,7 +175,8 @@ const char *trimRight( const char *s,
    for( i = 0; s[i] != '\0'; i++ )
       if( static_cast<unsigned char>( s[i] ) > 32 )
          slen = i;
-   if( ++slen == i ) return s;
+   // a string that does not fit the storage is not copied (it is too long for a label anyway)
+   if( ++slen == i || slen >= static_cast<int>( sstring {}.size() ) ) return s;
    std::memcpy( storage, s, slen );
    storage[slen] = '\0';
    return storage;
-- 
2.43.0


From da5a167a7b4c88bef35c249ddffb0cf8b0bddac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:15 +0000
Subject: [PATCH 14/21] fix: password protection read outside the password for
 file positions beyond 2 GiB

---
 src/gdlib/gmsstrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index d9961d4..0254f96 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -538,7 +538,7 @@ TXFileStream::~TXFileStream()
 void TXFileStream::ApplyPassWord( const char *PR, char *PW, int Len, int64_t Offs ) const
 {
    const auto L = static_cast<int>( FPassWord.length() );
-   auto FPwNxt = static_cast<int>( Offs ) % L;
+   auto FPwNxt = static_cast<int>( Offs % L );
    for( int N {}; N < Len; N++ )
    {
       FPwNxt++;
-- 
2.43.0


From 34395924e56495a4eafa21d4454721efad869cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:14 +0000
Subject: [PATCH 15/21] fix: domain element and slice name queries crashed on
 element numbers without a name

---
 src/gxfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0d35a94..a54b8e6 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3148,6 +3148,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    {
       assert( DimPos >= 1 && DimPos <= GLOBAL_MAX_INDEX_DIM );
       const int RawNr { LastElem[DimPos - 1] };
+      if( ErrorCondition( RawNr >= 1 && RawNr <= UELTable->size(), ERR_BADELEMENTINDEX ) ) continue;
       if( DFilter )
       {
          if( const int MapNr { UELTable->GetUserMap( RawNr ) }; !DFilter->InFilter( MapNr ) )
@@ -3397,7 +3398,7 @@ int TGXFileObj::gdxDataSliceUELS( const int *SliceKeyInt, char **KeyStr )
       else
       {
          if( const int N = SliceRevMap[D].GetMapping( SliceKeyInt[HisDim++] );
-            N < 0 )
+            N < 1 || N > UELTable->size() )
          {
             KeyStr[D][0] = '?';
             KeyStr[D][1] = '\0';
-- 
2.43.0


From 8cc662038d428893636d1bd7b20316e0cba0e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:24 +0000
Subject: [PATCH 16/21] fix: gdxDataSliceUELS used the filter of an earlier
 slice right after gdxDataReadSliceStart

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index a54b8e6..da55513 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3317,6 +3317,7 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    {
       SliceIndxs[D].reset();
       SliceRevMap[D].reset();
+      SliceElems[D].clear();
    }
    while( DoRead( Values.data(), FDim ) )
       for( int D {}; D < FCurrentDim; D++ )
-- 
2.43.0


From 0fc56d7210ad1c60c618e30f447ba236e39e4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:41 +0000
Subject: [PATCH 17/21] fix: terminate the copy of a string that is cut off at
 a given length

A symbol comment of more than 255 characters was stored without its
terminating NUL, so closing the file read past the end of the allocation.
---
 src/gdlib/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 657d8f9..e31343f 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -703,7 +703,8 @@ inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSiz
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
 {
    if( slen + 1 > outBufSize ) return;
-   std::memcpy( buf, s, slen + 1 );
+   std::memcpy( buf, s, slen );
+   buf[slen] = '\0';
 }
 
 inline void assignPCharToBuf( const char *s, char *buf, const size_t outBufSize = 256 )
-- 
2.43.0


From 49a3cf93b28184ead04c7ebbcea8c6f399386213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:44 +0000
Subject: [PATCH 18/21] fix: first changed position when reading the universe
 in mapped mode

The keys of the previous symbol were kept, so the first element of the
universe was reported as unchanged when it had the same user number as the
last record of the symbol read before.
---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index da55513..9fd6ab2 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -981,11 +981,11 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
       return 1;
    }
 
+   std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
    if( !ReadUniverse )
    {
       CurSyPtr->SScalarFrst = false;
       std::fill_n( LastElem.begin(), FCurrentDim, INDEX_INITIAL );
-      std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
       for( int D {}; D < FCurrentDim; D++ )
       {
          MinElem[D] = FFile->ReadInteger();
-- 
2.43.0


From 4dc6a05edc4be6783557d0846cb62cf674736e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:53 +0000
Subject: [PATCH 19/21] fix: clearing one bit of a TBooleanBitArray cleared its
 whole byte

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 5f033c1..8c9cb65 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -394,7 +394,7 @@ public:
          GetBitMask( N, P, M );
          if( V ) PData[P] |= M;
          else
-            PData[P] &= !M;
+            PData[P] &= static_cast<uint8_t>( ~M );
       }
    }
 
-- 
2.43.0


From ba9a89e35e34d0d9d8c5e86e98aeec5f276c5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 20/21] fix: packing the smallest integer overran the local
 buffer of WriteGmsInteger

---
 src/gdlib/gmsstrm.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 0254f96..47f6696 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -887,15 +887,15 @@ void TMiBufferedStream::WriteGmsInteger( int N )
 #endif
 
    uint8_t B { static_cast<uint8_t>( N >= 0 ? 0 : 128 ) };
-   if( N < 0 ) N = -N;
-   B |= N & 15;
-   N >>= 4;
+   uint32_t M { N >= 0 ? static_cast<uint32_t>( N ) : 0u - static_cast<uint32_t>( N ) };// also correct for the smallest integer
+   B |= M & 15;
+   M >>= 4;
    int C {};
    std::array<uint8_t, 5> W {};
-   while( N )
+   while( M )
    {
-      W[++C] = ui8(N & 255);
-      N >>= 8;
+      W[++C] = ui8(M & 255);
+      M >>= 8;
    }
    W[0] = ui8(B | C << 4);
    Write( W.data(), C + 1 );
@@ -997,15 +997,14 @@ int TMiBufferedStream::ReadGmsInteger()
    const bool Neg = B >= 128;
    global::delphitypes::Bounded<int, 0, 6> C { ( B >> 4 ) & 7 };
    if( C > 0 ) Read( &W[1], C );
-   int res {};
+   uint32_t res {};
    while( C >= 1 )
    {
       res = ( res << 8 ) | W[C];
       --C;
    }
    res = ( res << 4 ) | W[0];
-   if( Neg ) res *= -1;
-   return res;
+   return static_cast<int>( Neg ? 0u - res : res );
 }
 
 double TMiBufferedStream::ReadGmsDouble()
-- 
2.43.0


From d29ccac24d11b4918b4424e68f047dba1debe36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 21/21] fix: assertion of gdxDataReadRawFastFilt failed for 20
 filters of a 20-dimensional symbol

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 9fd6ab2..306b2b0 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3653,7 +3653,7 @@ int TGXFileObj::gdxDataReadRawFastFilt( int SyNr, const char **UelFilterStr, TDa
          while( DoRead( Values.data(), AFDim ) )
          {
             GoodIndx = true;
-            assert( FiltDim >= 0 && FiltDim < GMS_MAX_INDEX_DIM );
+            assert( FiltDim >= 0 && FiltDim <= GMS_MAX_INDEX_DIM );
             for( int D {}; D < FiltDim; D++ )
             {
                assert( ElemDim[D] >= 0 && ElemDim[D] < GMS_MAX_INDEX_DIM );
-- 
2.43.0

