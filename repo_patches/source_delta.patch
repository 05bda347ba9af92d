From d82b44700eb6ff2272d28bd39f437067414e842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:58 +0000
Subject: [PATCH 01/38] fix: namespace directives match whole namespace names,
 not text prefixes

'+namespace a' / '--bind a' / '-namespace a' also applied to unrelated
namespaces whose name merely starts with the same text, like 'ab'.
---
 source/config.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index 4c70aa9..e7d1dff 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -256,6 +256,13 @@ void Config::read(string const &file_name)
 }
 
 
+/// check if namespace is `root` itself or one of its descendants, empty root matches all namespaces
+static bool is_same_or_nested_namespace(string const &namespace_, string const &root)
+{
+	return begins_with(namespace_, root) and (root.empty() or namespace_.size() == root.size() or namespace_.compare(root.size(), 2, "::") == 0);
+}
+
+
 bool Config::is_namespace_binding_requested(string const &namespace_) const
 {
 	bool to_bind_flag = false, to_skip_flag = false;
@@ -263,7 +270,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 
 	for( auto &n : namespaces_to_bind ) {
 		if( n.size() == 0 ) to_bind_flag = true;
-		if( begins_with(namespace_, n) ) {
+		if( is_same_or_nested_namespace(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -272,7 +279,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_same_or_nested_namespace(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
@@ -297,7 +304,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	string to_bind, to_skip;
 
 	for( auto &n : namespaces_to_bind ) {
-		if( begins_with(namespace_, n) ) {
+		if( is_same_or_nested_namespace(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -306,7 +313,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_same_or_nested_namespace(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
-- 
2.43.0


From 2196b4105661e4171e78fa2581971c53e0855c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:58 +0000
Subject: [PATCH 02/38] fix: do not generate bindings for bit-fields

It is not possible to take address of a bit-field so generated code did not compile.
---
 source/class.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 2963d6d..5faafce 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -145,6 +145,8 @@ bool is_bindable(FieldDecl *f)
 
 	if( f->isAnonymousStructOrUnion() ) return false;
 
+	if( f->isBitField() ) return false; // pointer to bit-field could not be formed
+
 	if( !is_bindable(f->getType()) ) return false;
 
 	return true;
-- 
2.43.0


From 1c7444b41946439ecc9b50fc438b30b8b86c072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:19 +0000
Subject: [PATCH 03/38] fix: exception specification of call-back member
 functions

ExceptionSpecificationType was tested as if it was a set of bit flags: overrides of
'noexcept(true)' functions were generated without specification (does not compile) and
overrides of 'noexcept(false)' functions were generated as 'throw()' so exception raised
by Python code terminated the process.
---
 source/class.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 5faafce..306ddcf 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -763,10 +763,19 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 
 				string exception_specification;
 				if( FunctionProtoType const *fpt = dyn_cast<FunctionProtoType>(m->getType().getTypePtr()) ) {
-					if( fpt->getExceptionSpecType() & clang::ExceptionSpecificationType::EST_BasicNoexcept ) exception_specification = "noexcept ";
-					if( fpt->getExceptionSpecType() &
-						(clang::ExceptionSpecificationType::EST_DynamicNone | clang::ExceptionSpecificationType::EST_Dynamic | clang::ExceptionSpecificationType::EST_MSAny) )
-						exception_specification = "throw() ";
+					// note: ExceptionSpecificationType is plain enumeration, not a set of bit flags
+					switch( fpt->getExceptionSpecType() ) {
+						case clang::ExceptionSpecificationType::EST_BasicNoexcept:
+#if( LLVM_VERSION_MAJOR >= 7 )
+						case clang::ExceptionSpecificationType::EST_NoexceptTrue:
+#endif
+#if( LLVM_VERSION_MAJOR >= 9 )
+						case clang::ExceptionSpecificationType::EST_NoThrow:
+#endif
+						case clang::ExceptionSpecificationType::EST_DynamicNone:
+						case clang::ExceptionSpecificationType::EST_Dynamic: exception_specification = "throw() "; break;
+						default: break;
+					}
 				}
 
 				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), m->isConst() ? " const" : "", exception_specification);
-- 
2.43.0


From 602fcac9fbab470d319adfc9bfcd7c4bbd5140e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:19 +0000
Subject: [PATCH 04/38] fix: call-back functions inherited from base class with
 the same name

When class 'a::X' is derived from 'b::X' then name 'X' inside call-back structure refers to
'a::X' so call-back for member function of 'b::X' was calling function of a wrong class.
---
 source/class.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 306ddcf..34e80c0 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -791,7 +791,11 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 #else
 					if( m->isPure() ) c += "\t\tpybind11::pybind11_fail(\"Tried to call pure virtual function \\\"{}::{}\\\"\");\n"_format(C->getNameAsString(), python_name);
 #endif
-					else c += "\t\treturn {}::{}({});\n"_format(C->getNameAsString(), m->getNameAsString(), std::get<1>(args));
+					else {
+						// inside call-back structure bare name refers to the class being bound if its base have the same name
+						bool const same_name_base = class_qualified_name(C) != class_name and C->getNameAsString() == last_namespace(class_name.substr(0, class_name.find('<')));
+						c += "\t\treturn {}::{}({});\n"_format(same_name_base ? class_qualified_name(C) : C->getNameAsString(), m->getNameAsString(), std::get<1>(args));
+					}
 				}
 				else {
 					string input_args = std::get<1>(args);
-- 
2.43.0


From 17e230a71ca0c87a8f5622c83c7638a918367315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:03 +0000
Subject: [PATCH 05/38] fix: give each generated file and bind function unique
 name

Headers like 'a/b.hpp' and 'a_b.hpp', second chunk of 'a.hpp' and first chunk of 'a_1.hpp' or
header with the same name as root module were written to the same file and/or used the same
function name, so bindings were lost or generated code failed to link.
---
 source/context.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 901750a..49898a6 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -330,6 +330,7 @@ void Context::generate(Config const &config)
 	vector<string> binding_function_names;
 
 	std::map<string, int> file_names;
+	std::set<string> function_names;
 	std::map<string, int> namespace_entrance;
 
 	string root_module_file_name = config.root_module + ".cpp";
@@ -345,20 +346,23 @@ void Context::generate(Config const &config)
 	for( uint i = 0; i < binders.size(); ++i ) {
 		if( binders[i]->code().empty() ) continue;
 
-		string np, file_name;
+		string np, file_name, function_name;
 
-		if( O_flat ) {
-			np = config.root_module + "_";
-			file_name = np + std::to_string(file_names[np]);
-		}
-		else {
-			np = file_name_prefix_for_binder(binders[i]);
-			file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
-		}
-		++file_names[np];
+		// different headers could lead to the same name: for example `a/b.hpp` and `a_b.hpp` or second file for `a.hpp` and first one for `a_1.hpp`
+		do {
+			if( O_flat ) {
+				np = config.root_module + "_";
+				file_name = np + std::to_string(file_names[np]);
+			}
+			else {
+				np = file_name_prefix_for_binder(binders[i]);
+				file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
+			}
+			++file_names[np];
 
-		string function_name = "bind_" + replace_(file_name, "/", "_");
-		file_name += ".cpp";
+			function_name = "bind_" + replace_(file_name, "/", "_");
+			file_name += ".cpp";
+		} while( !function_names.insert(function_name).second or (!O_single_file and file_name == root_module_file_name) );
 
 		sources.push_back(file_name);
 		binding_function_names.push_back(function_name);
-- 
2.43.0


From aa73d97633a1b03d5402df5aa560e7eb8287f600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:19 +0000
Subject: [PATCH 06/38] fix: create output directories without going through
 shell

'mkdir -p' was run with unquoted path so output prefix or header directory containing spaces
or shell meta-characters was broken (or executed as shell code).
---
 source/util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/util.cpp b/source/util.cpp
index 2b425a5..fe27236 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -22,6 +22,8 @@
 #include <clang/AST/ExprCXX.h>
 #include <clang/Basic/SourceManager.h>
 
+#include <llvm/Support/FileSystem.h>
+
 //#include <experimental/filesystem>
 #include <cctype>
 #include <cstdlib>
@@ -133,9 +135,7 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 	dirs.pop_back();
 	for( auto &d : dirs ) path += "/" + d;
 
-	// std::experimental::filesystem::create_directories(path);
-	string command_line = "mkdir -p " + path;
-	if (system(command_line.c_str()) != 0) throw std::runtime_error("ERROR: Command \"" + command_line + "\" failed");
+	if( std::error_code e = llvm::sys::fs::create_directories(path) ) throw std::runtime_error("ERROR: Can not create directory " + path + ": " + e.message());
 
 	string full_file_name = prefix + '/' + file_name;
 	std::ifstream f(full_file_name);
-- 
2.43.0


From d61f3d0fedb7bb92d974537495e61be5b0e3cbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:19 +0000
Subject: [PATCH 07/38] fix: report errors while writing generated files

When output could not be written (disk full, unwritable .sources/.modules file, ...) Binder
finished with exit status 0 leaving missing or truncated files behind.
---
 source/context.cpp | 7 +++++++
 source/util.cpp    | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/source/context.cpp b/source/context.cpp
index 49898a6..237128f 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -490,10 +490,17 @@ void Context::generate(Config const &config)
 	else {
 		std::ofstream f(root_module_prefix + ".sources");
 		for( auto &s : sources ) f << s << "\n";
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_prefix + ".sources");
 
 		std::ofstream namespaces_file_handle(root_module_prefix + ".modules");
 		namespaces_file_handle << modules;
+		namespaces_file_handle.close();
+		if( namespaces_file_handle.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_prefix + ".modules");
 	}
+
+	root_module_file_handle.close();
+	if( root_module_file_handle.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_full_file_name);
 }
 
 /// generate unique trace line containing `info` to insert into the code
diff --git a/source/util.cpp b/source/util.cpp
index fe27236..b38966d 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -146,6 +146,8 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 		std::ofstream f(full_file_name);
 		if( f.fail() ) throw std::runtime_error("ERROR: Can not open file " + full_file_name + " for writing...");
 		f << code;
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + full_file_name);
 	}
 	else {
 		if( O_verbose ) outs() << "File " << full_file_name << " is up-to-date, skipping...\n";
-- 
2.43.0


From b25c53c2ae04337cb1c93f8c788faea8e22f5b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:35 +0000
Subject: [PATCH 08/38] fix: '--max-file-size 0' generated empty files forever

---
 source/context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/context.cpp b/source/context.cpp
index 237128f..0472b99 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -331,6 +331,8 @@ void Context::generate(Config const &config)
 
 	std::map<string, int> file_names;
 	std::set<string> function_names;
+
+	std::size_t const maximum_file_length = std::max<std::size_t>(config.maximum_file_length, 1); // every file should hold at least one binding
 	std::map<string, int> namespace_entrance;
 
 	string root_module_file_name = config.root_module + ".cpp";
@@ -396,7 +398,7 @@ void Context::generate(Config const &config)
 			if( namespace_entrance[namespace_] == 0 ) code += "\n\t{}(M(\"{}\"));\n"_format(add_on_binder_for_namespaces.at(namespace_), namespace_);
 		}
 
-		for( ; code.size() < config.maximum_file_length and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
+		for( ; code.size() < maximum_file_length and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
 			// outs() << "Binding: " << string(*binders[i]) << "\n";
 			//  if( ClassBinder * CB = dynamic_cast<ClassBinder*>( binders[i].get() ) ) {
 			//  	std::vector<clang::CXXRecordDecl const *> const dependencies = CB->dependencies();
-- 
2.43.0


From 39f4e5f6c38588eb432606804438bf97a03fd10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:28 +0000
Subject: [PATCH 09/38] fix: detect non-assignable data members regardless of
 how their type is spelled

Types named through typedef, qualified name or template specialization and types with implicitly
deleted operator= were bound as read-write members and generated code did not compile.
---
 source/class.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 34e80c0..3c90ac0 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -122,13 +122,25 @@ bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 }
 
 
-bool is_field_assignable(FieldDecl const *f)
+// check if objects of given type could be assigned from const reference
+bool is_copy_assignable(QualType qt)
 {
-	if( RecordType const *r = dyn_cast<RecordType>(f->getType()) ) {
-		if( CXXRecordDecl *C = cast<CXXRecordDecl>(r->getDecl()) ) { // checking if this type has deleted operator=
-			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
-				// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
-				if( m->isCopyAssignmentOperator() and (m->getAccess() != AS_public or m->isDeleted()) ) return false;
+	if( RecordType const *r = qt->getBaseElementTypeUnsafe()->getAs<RecordType>() ) {
+		CXXRecordDecl *C = cast<CXXRecordDecl>(r->getDecl())->getDefinition();
+		if( !C ) return true;
+
+		for( auto m = C->method_begin(); m != C->method_end(); ++m ) { // checking if this type has deleted operator=
+			// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
+			if( m->isCopyAssignmentOperator() and (m->getAccess() != AS_public or m->isDeleted()) ) return false;
+		}
+
+		if( !C->hasUserDeclaredCopyAssignment() ) { // checking if implicit operator= is going to be defined as deleted
+			if( C->hasUserDeclaredMoveConstructor() or C->hasUserDeclaredMoveAssignment() ) return false;
+			for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) {
+				if( !is_copy_assignable(b->getType()) ) return false;
+			}
+			for( auto f = C->field_begin(); f != C->field_end(); ++f ) {
+				if( f->getType().isConstQualified() or f->getType()->isReferenceType() or !is_copy_assignable(f->getType()) ) return false;
 			}
 		}
 	}
@@ -136,6 +148,11 @@ bool is_field_assignable(FieldDecl const *f)
 	return true;
 }
 
+bool is_field_assignable(FieldDecl const *f)
+{
+	return is_copy_assignable(f->getType());
+}
+
 /// check if generator can create binding
 bool is_bindable(FieldDecl *f)
 {
-- 
2.43.0


From b21565884256066a6a694bfd298f1264f54bdd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:28 +0000
Subject: [PATCH 10/38] fix: bind implicit default constructor exactly when it
 exists

Implicit default constructors deleted due to data members were bound (generated code did not compile) and
ones of classes whose indirect base has no default constructor were not bound.
---
 source/class.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 3c90ac0..e197222 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -502,6 +502,8 @@ void add_relevant_includes_cached(clang::CXXRecordDecl const *C, IncludeSet &inc
 // 	return true;
 // }
 
+bool member_default_constructor_available(CXXRecordDecl const *C);
+
 // Check if all bases have public default constructors
 bool base_default_default_constructor_available(CXXRecordDecl const *C)
 {
@@ -517,9 +519,35 @@ bool base_default_default_constructor_available(CXXRecordDecl const *C)
 					}
 				}
 
-				if( !base_default_default_constructor_available(R) ) return false;
+				if( R->needsImplicitDefaultConstructor() and !(base_default_default_constructor_available(R) and member_default_constructor_available(R)) ) return false;
+			}
+		}
+	}
+
+	return true;
+}
+
+// Check if implicitly declared default constructor could initialize all data members
+bool member_default_constructor_available(CXXRecordDecl const *C)
+{
+	for( auto f = C->field_begin(); f != C->field_end(); ++f ) {
+		if( f->hasInClassInitializer() or f->isUnnamedBitfield() ) continue;
+
+		if( f->getType()->isReferenceType() ) return false;
+
+		if( RecordType const *rt = f->getType()->getBaseElementTypeUnsafe()->getAs<RecordType>() ) {
+			CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl())->getDefinition();
+			if( !R or R->isUnion() or R->isAnonymousStructOrUnion() ) continue;
+
+			if( !R->hasDefaultConstructor() or (f->getType().isConstQualified() and !R->allowConstDefaultInit()) ) return false;
+
+			for( auto t = R->ctor_begin(); t != R->ctor_end(); ++t ) {
+				if( t->isDefaultConstructor() and (t->getAccess() != AS_public or t->isDeleted()) ) return false;
 			}
+
+			if( R->needsImplicitDefaultConstructor() and !(base_default_default_constructor_available(R) and member_default_constructor_available(R)) ) return false;
 		}
+		else if( f->getType().isConstQualified() ) return false;
 	}
 
 	return true;
@@ -1401,7 +1429,7 @@ void ClassBinder::bind(Context &context)
 		// c += "\t// hasDefaultConstructor={} needsImplicitDefaultConstructor={} base_default_default_constructor_available={}\n"_format(C->hasDefaultConstructor(),
 		// C->needsImplicitDefaultConstructor(), base_default_default_constructor_available(C));
 
-		if( !default_constructor_processed and C->needsImplicitDefaultConstructor() and base_default_default_constructor_available(C)
+		if( !default_constructor_processed and C->needsImplicitDefaultConstructor() and base_default_default_constructor_available(C) and (C->isUnion() or member_default_constructor_available(C))
 			// ( C->ctor_begin() == C->ctor_end() and  is_default_default_constructor_available(C)  and  !default_constructor_processed)
 			// or (C->hasDefaultConstructor()  and  !default_constructor_processed )
 
-- 
2.43.0


From f8a6dfebca953a5c734eafb85801531992df22a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:46 +0000
Subject: [PATCH 11/38] fix: call-back functions for virtual functions that are
 overridden elsewhere

Fallback of Python sub-classes ignored functions overridden as private and final overriders in sibling
virtual bases: an implementation from a less derived class was called instead.
---
 source/class.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index e197222..3e96796 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -19,6 +19,7 @@
 
 #include <fmt/format.h>
 
+#include <clang/AST/CXXInheritance.h>
 #include <clang/AST/DeclTemplate.h>
 //#include <clang/AST/TemplateBase.h>
 
@@ -752,8 +753,9 @@ if (overload) {{
 )_";
 
 
-// generate call-back overloads for all public virtual functions in C including it bases
+// generate call-back overloads for all public virtual functions in C including it bases, functions which are not listed in final_overriders are skipped: these are overridden by some other class
 string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, /*string const & base_type_alias,*/ set<string> &binded, int &ret_id,
+										   set<CXXMethodDecl const *> const &final_overriders,
 										   std::vector<clang::FunctionDecl const *> &prefix_includes_ /*, std::set<clang::NamedDecl const *> &prefix_includes_stack*/)
 {
 	string c;
@@ -762,6 +764,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 		if( (m->getAccess() != AS_private) and is_bindable(*m) and is_overloadable(*m) //
 			and !is_skipping_requested(*m, Config::get()) //
 			and !isa<CXXConstructorDecl>(*m) and !isa<CXXDestructorDecl>(*m) and m->isVirtual() //
+			and final_overriders.count(m->getCanonicalDecl()) //
 			and !is_const_overload(
 					*m) // was ( !is_const_overload(*m) or m->isPure() ) but now we ignoring this case since it is not possible to overload both const and non-const variants in Python anyway
 		) {
@@ -874,7 +877,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 			if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
 				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
 					// add_relevant_includes(R, prefix_includes, prefix_includes_stack, 0);
-					c += bind_member_functions_for_call_back(R, class_name, /*base_type_alias,*/ binded, ret_id, prefix_includes_);
+					c += bind_member_functions_for_call_back(R, class_name, /*base_type_alias,*/ binded, ret_id, final_overriders, prefix_includes_);
 				}
 			}
 		}
@@ -894,9 +897,18 @@ void ClassBinder::generate_prefix_code()
 	// string base_type_alias = "_binder_base_";
 	// prefix_code_ += "\tusing {} = {};\n\n"_format(base_type_alias, class_qualified_name(C));
 
+	set<CXXMethodDecl const *> final_overriders;
+	CXXFinalOverriderMap final_overrider_map;
+	C->getFinalOverriders(final_overrider_map);
+	for( auto const &m : final_overrider_map ) {
+		for( auto const &subobject : m.second ) {
+			for( auto const &overrider : subobject.second ) final_overriders.insert(overrider.Method->getCanonicalDecl());
+		}
+	}
+
 	set<string> binded;
 	int ret_id = 0;
-	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), /*base_type_alias,*/ binded, ret_id, prefix_includes_);
+	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), /*base_type_alias,*/ binded, ret_id, final_overriders, prefix_includes_);
 	prefix_code_ += "};\n\n";
 }
 
-- 
2.43.0


From 9111c13d53ddc89895cca3a73869ba782bf884f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:51 +0000
Subject: [PATCH 12/38] fix: order of bindings when nested classes are used as,
 or have, base classes

Class derived from nested class was rejected ("Could not find binder") and bases of nested classes
could end up bound after the enclosing class, so generated module failed to import.
---
 source/class.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 3e96796..7d799d7 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1019,6 +1019,14 @@ string bind_forward_declaration(CXXRecordDecl const *C, Context &context)
 }
 
 
+/// return outermost class that enclose given class or class itself if it is not nested
+CXXRecordDecl const *outermost_class(CXXRecordDecl const *C)
+{
+	while( auto enclosing = dyn_cast<CXXRecordDecl>(C->getDeclContext()) ) C = enclosing;
+	return C;
+}
+
+
 /// check if any of the base classes is wrappable and if generate a string describing them: , pybind11::base<BaseClass>()
 string ClassBinder::maybe_base_classes(Context &context)
 {
@@ -1038,7 +1046,9 @@ string ClassBinder::maybe_base_classes(Context &context)
 
 						binder::request_bindings(b->getType().getCanonicalType(), context);
 
-						dependencies_.push_back(R);
+						// nested classes have no binders on their own: they are bound together with the outermost enclosing class
+						CXXRecordDecl const *D = outermost_class(R);
+						if( D != outermost_class(C) ) dependencies_.push_back(D);
 					}
 				}
 			}
@@ -1299,6 +1309,12 @@ string ClassBinder::bind_nested_classes(Context &context)
 			c += b.code();
 			c += '\n';
 			prefix_code_ += b.prefix_code();
+
+			// classes defined inside enclosing class: their bases have to be bound before enclosing class
+			if( isa<CXXRecordDecl>(innerC->getLexicalDeclContext()) and !isa<ClassTemplateSpecializationDecl>(innerC) and !isa<ClassTemplateSpecializationDecl>(C) ) {
+				auto const d = b.dependencies();
+				dependencies_.insert(dependencies_.end(), d.begin(), d.end());
+			}
 		}
 	});
 
-- 
2.43.0


From 475cfb852111c3072f800a026a26fa234d19914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:40 +0000
Subject: [PATCH 13/38] fix: casts to base classes that are not located at the
 beginning of the object

When only bound base is virtual or is located at non-zero offset (because
of other bases which are not bound or virtual table pointer) pybind11 have to be told
that simple pointer reinterpretation is not possible.
---
 source/class.cpp | 18 ++++++++++++++++--
 source/class.hpp |  3 ++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 7d799d7..e3bc78b 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -19,8 +19,10 @@
 
 #include <fmt/format.h>
 
+#include <clang/AST/ASTContext.h>
 #include <clang/AST/CXXInheritance.h>
 #include <clang/AST/DeclTemplate.h>
+#include <clang/AST/RecordLayout.h>
 //#include <clang/AST/TemplateBase.h>
 
 
@@ -1028,9 +1030,12 @@ CXXRecordDecl const *outermost_class(CXXRecordDecl const *C)
 
 
 /// check if any of the base classes is wrappable and if generate a string describing them: , pybind11::base<BaseClass>()
-string ClassBinder::maybe_base_classes(Context &context)
+string ClassBinder::maybe_base_classes(Context &context, bool &adjust_pointers)
 {
 	string r;
+	int bases = 0;
+
+	adjust_pointers = false;
 
 	static std::vector<string> const skip_list = {"std::enable_shared_from_this", "std::string", "std::basic_string", "std::pair", "std::tuple"};
 
@@ -1044,6 +1049,9 @@ string ClassBinder::maybe_base_classes(Context &context)
 						// r = ", pybind11::base<{}>()"_format( class_qualified_name(R) );
 						r += ", {}"_format(class_qualified_name(R));
 
+						++bases;
+						adjust_pointers |= b->isVirtual() or !C->getASTContext().getASTRecordLayout(C).getBaseClassOffset(R).isZero();
+
 						binder::request_bindings(b->getType().getCanonicalType(), context);
 
 						// nested classes have no binders on their own: they are bound together with the outermost enclosing class
@@ -1055,6 +1063,8 @@ string ClassBinder::maybe_base_classes(Context &context)
 		}
 	}
 
+	if( bases > 1 ) adjust_pointers = false; // Pybind11 already know that it have to adjust pointers
+
 	return r;
 }
 
@@ -1390,13 +1400,17 @@ void ClassBinder::bind(Context &context)
 	std::string extra_annotation = module_local_annotation + buffer_protocol_annotation;
 
 	if( named_class ) {
+		bool adjust_pointers;
+		string const base_classes = maybe_base_classes(context, adjust_pointers);
+		if( adjust_pointers ) extra_annotation += ", pybind11::multiple_inheritance()";
+
 		if (Config::get().is_smart_holder_requested(qualified_name_without_template)) {
 			c += '\t' +
 				R"(PYBIND11_TYPE_CASTER_BASE_HOLDER({} {}))"_format(qualified_name, maybe_holder_type) +
 				'\n';
 		}
 		c += '\t' +
-			 R"(pybind11::class_<{}{}{}{}> cl({}, "{}", "{}"{});)"_format(qualified_name, maybe_holder_type, maybe_trampoline, maybe_base_classes(context), module_variable_name, python_class_name(C),
+			 R"(pybind11::class_<{}{}{}{}> cl({}, "{}", "{}"{});)"_format(qualified_name, maybe_holder_type, maybe_trampoline, base_classes, module_variable_name, python_class_name(C),
 																		generate_documentation_string_for_declaration(C), extra_annotation) +
 			 '\n';
 	}
diff --git a/source/class.hpp b/source/class.hpp
index dfbbbb6..5d2dc3e 100644
--- a/source/class.hpp
+++ b/source/class.hpp
@@ -110,7 +110,8 @@ private:
 	std::vector<clang::CXXRecordDecl const *> dependencies_;
 
 	/// check if any of the base classes is wrappable and if generate a string describing them: , pybind11::base<BaseClass>()
-	std::string maybe_base_classes(Context &context);
+	/// set adjust_pointers if address of the only wrappable base class differs from address of the class itself
+	std::string maybe_base_classes(Context &context, bool &adjust_pointers);
 
 	void generate_prefix_code();
 
-- 
2.43.0


From 629c36e2f45dd831564f00288a137d0186585f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:27 +0000
Subject: [PATCH 14/38] fix: insertion operators of class templates with the
 same name in different namespaces

---
 source/context.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 0472b99..6d19387 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -157,7 +157,16 @@ void Context::add(BinderOP &b)
 
 void Context::add_insertion_operator(clang::FunctionDecl const *F)
 {
-	insertion_operators[function_pointer_type(F)] = F;
+	string key = function_pointer_type(F);
+
+	// for templates string representation of argument type does not have namespaces, so adding full name of class template
+	if( F->getNumParams() == 2 and F->getParamDecl(1)->getType()->isDependentType() ) {
+		if( auto t = F->getParamDecl(1)->getType().getNonReferenceType().getCanonicalType()->getAs<TemplateSpecializationType>() ) {
+			if( auto td = t->getTemplateName().getAsTemplateDecl() ) key = td->getQualifiedNameAsString() + ": " + key;
+		}
+	}
+
+	insertion_operators[key] = F;
 }
 
 /// find global insertion operator for given type, return nullptr if not such operator find
@@ -181,7 +190,7 @@ clang::FunctionDecl const *Context::global_insertion_operator(clang::CXXRecordDe
 
 		// outs() << "Looking for operator: " << op_pointer << "\n";
 
-		auto it = insertion_operators.find(op_pointer);
+		auto it = insertion_operators.find(t->getSpecializedTemplate()->getQualifiedNameAsString() + ": " + op_pointer);
 		if( it != insertion_operators.end() ) return it->second;
 	}
 
-- 
2.43.0


From 21bc63d83fe75470ed5cf8ce2e141e05e616f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:02 +0000
Subject: [PATCH 15/38] fix: members of a class requested by name are bound
 also when its namespace is skipped

+class for a class of a namespace with -namespace bound an empty class: constructors, member functions and enums were still skipped.
---
 source/class.cpp    | 12 +++++++++++-
 source/class.hpp    |  3 +++
 source/enum.cpp     |  3 ++-
 source/function.cpp |  2 +-
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index e3bc78b..b957243 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -378,7 +378,7 @@ bool is_skipping_requested(clang::CXXRecordDecl const *C, Config const &config)
 	if( config.is_class_skipping_requested(qualified_name) ) return true;
 	if( config.is_class_binding_requested(qualified_name) ) return false;
 
-	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(C));
+	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(C)) and !is_member_of_requested_class(C, config);
 
 	for( auto &t : get_type_dependencies(C) ) skip |= is_skipping_requested(t, config);
 
@@ -386,6 +386,16 @@ bool is_skipping_requested(clang::CXXRecordDecl const *C, Config const &config)
 }
 
 
+// check if given declaration is a member of a class which was explicitly requested for binding
+bool is_member_of_requested_class(clang::Decl const *D, Config const &config)
+{
+	for( auto C = dyn_cast<CXXRecordDecl>(D->getDeclContext()); C; C = dyn_cast<CXXRecordDecl>(C->getDeclContext()) ) {
+		if( config.is_class_binding_requested(class_qualified_name(C)) or config.is_class_binding_requested(standard_name(C->getQualifiedNameAsString())) ) return true;
+	}
+	return false;
+}
+
+
 // extract include needed for declaration and add it to includes
 void add_relevant_includes(clang::CXXRecordDecl const *C, IncludeSet &includes, int level)
 {
diff --git a/source/class.hpp b/source/class.hpp
index 5d2dc3e..307f6ad 100644
--- a/source/class.hpp
+++ b/source/class.hpp
@@ -60,6 +60,9 @@ bool is_binding_requested(clang::CXXRecordDecl const *C, Config const &config);
 /// check if user requested skipping for the given declaration
 bool is_skipping_requested(clang::CXXRecordDecl const *C, Config const &config);
 
+/// check if given declaration is a member of a class which was explicitly requested for binding
+bool is_member_of_requested_class(clang::Decl const *D, Config const &config);
+
 
 // extract include needed for declaration and add it to includes
 void add_relevant_includes(clang::CXXRecordDecl const *C, IncludeSet &includes, int level);
diff --git a/source/enum.cpp b/source/enum.cpp
index b538d73..f3ad5bb 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -13,6 +13,7 @@
 
 #include <enum.hpp>
 
+#include <class.hpp>
 #include <type.hpp>
 #include <util.hpp>
 
@@ -74,7 +75,7 @@ bool is_skipping_requested(clang::EnumDecl const *E, Config const &config)
 	if( config.is_enum_skipping_requested(qualified_name) ) return true;
 	if( config.is_enum_binding_requested(qualified_name) ) return false;
 
-	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(E));
+	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(E)) and !is_member_of_requested_class(E, config);
 
 	//for( auto &t : get_type_dependencies(E) ) skip |= is_skipping_requested(t, config);
 
diff --git a/source/function.cpp b/source/function.cpp
index 62b46c5..6c8483b 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -337,7 +337,7 @@ bool is_skipping_requested(FunctionDecl const *F, Config const &config)
 	if( config.is_function_skipping_requested(qualified_name) ) return true; // qualified function name was requested for skipping
 	if( config.is_function_binding_requested(qualified_name) ) return false; // qualified function name was requested for binding
 
-	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(F));
+	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(F)) and !is_member_of_requested_class(F, config);
 
 	// moved to config -> qualified_name.erase(std::remove(name.begin(), name.end(), ' '), name.end());
 	skip |= config.is_function_skipping_requested(qualified_name);
-- 
2.43.0


From 38af0e1cf6ad518ce3917128e880903cca63fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:02 +0000
Subject: [PATCH 16/38] fix: -class directive for nested classes was ignored

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index b957243..eb80ef1 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1322,7 +1322,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			// innerC seems to be a forward declaration
 			innerC = innerC->getDefinition();
 		}
-		if( is_bindable(innerC) ) {
+		if( is_bindable(innerC) and !is_skipping_requested(innerC, Config::get()) ) {
 			// c += "\t// Binding " + C->getNameAsString() + ";\n";
 			ClassBinder b(innerC);
 			b.bind(context);
-- 
2.43.0


From 29dcec00cf4a51928c2aa15900c98973fd2c5811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:31 +0000
Subject: [PATCH 17/38] fix: -field and +/-enum directives for members of
 templates with several arguments were ignored

---
 source/config.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index e7d1dff..81eaedf 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -393,12 +393,18 @@ bool Config::is_class_skipping_requested(string const &class__) const
 
 bool Config::is_field_skipping_requested(string const &field_) const
 {
-	return std::find(fields_to_skip.begin(), fields_to_skip.end(), field_) != fields_to_skip.end();
+	string field{field_};
+	field.erase(std::remove(field.begin(), field.end(), ' '), field.end());
+
+	return std::find(fields_to_skip.begin(), fields_to_skip.end(), field) != fields_to_skip.end();
 }
 
 
-bool Config::is_enum_binding_requested(string const &enum_) const
+bool Config::is_enum_binding_requested(string const &enum__) const
 {
+	string enum_{enum__};
+	enum_.erase(std::remove(enum_.begin(), enum_.end(), ' '), enum_.end());
+
 	auto bind = std::find(enums_to_bind.begin(), enums_to_bind.end(), enum_);
 
 	if( bind != enums_to_bind.end() ) return true;
@@ -407,8 +413,11 @@ bool Config::is_enum_binding_requested(string const &enum_) const
 }
 
 
-bool Config::is_enum_skipping_requested(string const &enum_) const
+bool Config::is_enum_skipping_requested(string const &enum__) const
 {
+	string enum_{enum__};
+	enum_.erase(std::remove(enum_.begin(), enum_.end(), ' '), enum_.end());
+
 	auto bind = std::find(enums_to_skip.begin(), enums_to_skip.end(), enum_);
 
 	if( bind != enums_to_skip.end() ) return true;
-- 
2.43.0


From cf5d9dc62ec15fd29178d72658f562e6a01e0918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:22 +0000
Subject: [PATCH 18/38] fix: scoped enums of class templates were bound without
 enumerators

---
 source/enum.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/enum.cpp b/source/enum.cpp
index f3ad5bb..5370642 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -131,6 +131,12 @@ std::string bind_enum(std::string const &module, EnumDecl const *E)
 
 	// r += "\t // is_bindable " + E->getNameAsString() + " -> " + std::to_string(is_bindable(E)) + "\n";
 
+	if( !E->getDefinition() ) { // member of class template which was not used yet: taking enumerators from template
+		if( EnumDecl const *pattern = E->getTemplateInstantiationPattern() ) {
+			for( auto e = pattern->enumerator_begin(); e != pattern->enumerator_end(); ++e ) r += "\t\t.value(\"{0}\", {1}::{0})\n"_format(e->getNameAsString(), qualified_name);
+		}
+	}
+
 	for( auto e = E->enumerator_begin(); e != E->enumerator_end(); ++e ) {
 #if( LLVM_VERSION_MAJOR > 5 )
 		r += "\t\t.value(\"{}\", {})\n"_format(e->getNameAsString(), e->getQualifiedNameAsString());
-- 
2.43.0


From 6ed179c8664ac8f3cc08c93e240e266806c19bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:17 +0000
Subject: [PATCH 19/38] fix: report read errors of the configuration file

---
 source/config.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/config.cpp b/source/config.cpp
index 81eaedf..1d4f321 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -253,6 +253,8 @@ void Config::read(string const &file_name)
 									 "' Line: '" + line + '\'');
 		}
 	}
+
+	if( f.bad() ) throw std::runtime_error("can not read file " + file_name + "...");
 }
 
 
-- 
2.43.0


From fdb887b549525abd4fa85db70af0e9e5c41e7b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:17 +0000
Subject: [PATCH 20/38] fix: apply module_local_namespace to nested classes and
 enums of classes

---
 source/class.cpp | 2 +-
 source/enum.cpp  | 2 +-
 source/util.cpp  | 7 +++++++
 source/util.hpp  | 3 +++
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index eb80ef1..c41e093 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1399,7 +1399,7 @@ void ClassBinder::bind(Context &context)
 
 	// Add module local if requested for the namespace
 	std::string module_local_annotation = "";
-	if (Config::get().is_module_local_requested(namespace_from_named_decl(C)))
+	if (Config::get().is_module_local_requested(enclosing_namespace(C)))
 		module_local_annotation = ", pybind11::module_local()";
 
 	// Add buffer protocol if requested
diff --git a/source/enum.cpp b/source/enum.cpp
index 5370642..4eac2ea 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -124,7 +124,7 @@ std::string bind_enum(std::string const &module, EnumDecl const *E)
 
 	// Add module local if requested for the namespace
 	std::string module_local_annotation = "";
-	if (Config::get().is_module_local_requested(namespace_from_named_decl(E)))
+	if (Config::get().is_module_local_requested(enclosing_namespace(E)))
 		module_local_annotation = ", pybind11::module_local()";
 
 	string r = "\tpybind11::enum_<{}>({}, \"{}\"{}, \"{}\"{})\n"_format(qualified_name, module, name, maybe_arithmetic, generate_documentation_string_for_declaration(E), module_local_annotation);
diff --git a/source/util.cpp b/source/util.cpp
index b38966d..cef0bc5 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -171,6 +171,13 @@ string namespace_from_named_decl(NamedDecl const *decl)
 }
 
 
+string enclosing_namespace(NamedDecl const *decl)
+{
+	while( auto C = dyn_cast<CXXRecordDecl>(decl->getDeclContext()) ) decl = C;
+	return namespace_from_named_decl(decl);
+}
+
+
 /// generate unique string representation of type represented by given declaration
 string typename_from_type_decl(TypeDecl const *decl)
 {
diff --git a/source/util.hpp b/source/util.hpp
index ebb5094..86c00ac 100644
--- a/source/util.hpp
+++ b/source/util.hpp
@@ -55,6 +55,9 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 /// calculate namespace path from given NamedDecl, like: std, core::pose
 std::string namespace_from_named_decl(clang::NamedDecl const *decl);
 
+// same as `namespace_from_named_decl` but for class members: return namespace of the outermost enclosing class
+std::string enclosing_namespace(clang::NamedDecl const *decl);
+
 
 std::string typename_from_type_decl(clang::TypeDecl const *decl);
 
-- 
2.43.0


From d522226c0f5418b126460590237a9e77923fbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:17 +0000
Subject: [PATCH 21/38] fix: pass call-back structure of the class being bound
 to custom trampolines of inherited functions

---
 source/class.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index c41e093..9520072 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -766,7 +766,7 @@ if (overload) {{
 
 
 // generate call-back overloads for all public virtual functions in C including it bases, functions which are not listed in final_overriders are skipped: these are overridden by some other class
-string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, /*string const & base_type_alias,*/ set<string> &binded, int &ret_id,
+string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, string const &call_back_name, /*string const & base_type_alias,*/ set<string> &binded, int &ret_id,
 										   set<CXXMethodDecl const *> const &final_overriders,
 										   std::vector<clang::FunctionDecl const *> &prefix_includes_ /*, std::set<clang::NamedDecl const *> &prefix_includes_stack*/)
 {
@@ -859,7 +859,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 				}
 				else {
 					string input_args = std::get<1>(args);
-					c += "\n\t\treturn {}<{},{}>(this, \"{}\", \"{}\""_format(custom_function_info, C->getNameAsString(), callback_structure_name(C), class_name, m->getNameAsString());
+					c += "\n\t\treturn {}<{},{}>(this, \"{}\", \"{}\""_format(custom_function_info, C->getNameAsString(), call_back_name, class_name, m->getNameAsString());
 					if ( input_args.length() > 0 )
 						c += ", {}"_format(std::get<1>(args));
 					c += ");\n";
@@ -889,7 +889,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 			if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
 				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
 					// add_relevant_includes(R, prefix_includes, prefix_includes_stack, 0);
-					c += bind_member_functions_for_call_back(R, class_name, /*base_type_alias,*/ binded, ret_id, final_overriders, prefix_includes_);
+					c += bind_member_functions_for_call_back(R, class_name, call_back_name, /*base_type_alias,*/ binded, ret_id, final_overriders, prefix_includes_);
 				}
 			}
 		}
@@ -920,7 +920,7 @@ void ClassBinder::generate_prefix_code()
 
 	set<string> binded;
 	int ret_id = 0;
-	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), /*base_type_alias,*/ binded, ret_id, final_overriders, prefix_includes_);
+	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), callback_structure_name(C), /*base_type_alias,*/ binded, ret_id, final_overriders, prefix_includes_);
 	prefix_code_ += "};\n\n";
 }
 
-- 
2.43.0


From 0cf95766f0c44e4c50d9dbf493c2f99dbc03acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:33 +0000
Subject: [PATCH 22/38] fix: pass module of the enclosing namespace to custom
 binders of nested classes

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 9520072..4f18edd 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1083,7 +1083,7 @@ void ClassBinder::bind_with(string const &binder, Context &context)
 {
 	string c = '\t' + generate_comment_for_declaration(C);
 
-	string const module_variable_name = context.module_variable_name(namespace_from_named_decl(C));
+	string const module_variable_name = context.module_variable_name(enclosing_namespace(C));
 
 	c += '\t' + binder + standard_name(template_specialization(C)) + '(' + module_variable_name;
 
-- 
2.43.0


From 62a0bf469c4a993ce67ba5426ed5b3ba3e6f4ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:16 +0000
Subject: [PATCH 23/38] fix: ignore white space around the arguments of
 configuration directives

---
 source/config.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index 1d4f321..4af7977 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -116,7 +116,7 @@ void Config::read(string const &file_name)
 
 		bool bind = line[0] == '+' ? true : false;
 		string token = line.substr(1, space - 1);
-		string name = line.substr(space + 1);
+		string name = trim(line.substr(space + 1));
 		string name_without_spaces = name;
 		name_without_spaces.erase(std::remove(name_without_spaces.begin(), name_without_spaces.end(), ' '), name_without_spaces.end());
 
@@ -156,7 +156,7 @@ void Config::read(string const &file_name)
 
 			if( bind ) {
 				auto class_and_include = split_in_two(name, "Invalid line for include_for_class specification! Must be: name_of_type + <space or tab> + include_path. Got: " + line);
-				class_includes_[class_and_include.first].push_back(class_and_include.second);
+				class_includes_[class_and_include.first].push_back(trim(class_and_include.second));
 			}
 			else {
 				throw std::runtime_error("include_for_class must be '+' configuration.");
@@ -166,7 +166,7 @@ void Config::read(string const &file_name)
 
 			if( bind ) {
 				auto namespace_and_include = split_in_two(name, "Invalid line for include_for_namespace specification! Must be: name_of_type + <space or tab> + include_path. Got: " + line);
-				namespace_includes_[namespace_and_include.first].push_back(namespace_and_include.second);
+				namespace_includes_[namespace_and_include.first].push_back(trim(namespace_and_include.second));
 			}
 			else {
 				throw std::runtime_error("include_for_namespace must be '+' configuration.");
@@ -244,7 +244,7 @@ void Config::read(string const &file_name)
 		else if( token == _trampoline_member_function_binder_ ) {
 			if( bind ) {
 				auto member_function_name_and_function_name = split_in_two(name, "Invalid line for trampoline_member_function_binder specification! Must be: qualified_class_name::member_funtion_name + <space or tab> + name_of_function. Got: " + line);
-				custom_trampoline_functions_[member_function_name_and_function_name.first] = member_function_name_and_function_name.second;
+				custom_trampoline_functions_[member_function_name_and_function_name.first] = trim(member_function_name_and_function_name.second);
 			}
 		}
 
-- 
2.43.0


From 59878cf4ad7d646d0807ea2b4ebf439910e3ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:38 +0000
Subject: [PATCH 24/38] fix: give the call-back structures of different classes
 different and valid C++ names

---
 source/class.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 4f18edd..71fab3f 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -664,7 +664,17 @@ string binding_public_data_members(CXXRecordDecl const *C)
 inline string callback_structure_name(CXXRecordDecl const *C)
 {
 	string ns = replace_(namespace_from_named_decl(C), "::", "_");
-	return mangle_type_name( "PyCallBack_" + (ns.empty() ? "" : ns + '_') + python_class_name(C), false );
+	string name = mangle_type_name( "PyCallBack_" + (ns.empty() ? "" : ns + '_') + python_class_name(C), false );
+
+	for( auto &c : name ) { // template arguments could contain characters that is not allowed in C++ identifiers
+		if( !isalnum(static_cast<unsigned char>(c)) ) c = '_';
+	}
+
+	// names of different classes could be the same after mangling, for example a::b_c and a_b::c
+	static std::map<string, string> owners;
+	string const owner = class_qualified_name(C);
+	while( owners.emplace(name, owner).first->second != owner ) name += '_';
+	return name;
 }
 
 
-- 
2.43.0


From 1f3a576254cc500779ca3dcb6a8974179515ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:38 +0000
Subject: [PATCH 25/38] fix: include the headers of template arguments of data
 members

---
 source/class.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 71fab3f..d07b593 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -606,6 +606,14 @@ void ClassBinder::add_relevant_includes(IncludeSet &includes) const
 	for( auto &m : prefix_includes_ ) binder::add_relevant_includes(m, includes, 0);
 	binder::add_relevant_includes(C, includes, 0);
 
+	for( auto f = C->field_begin(); f != C->field_end(); ++f ) {
+		// type of data member is complete but its template arguments, for example in std::shared_ptr<A>, might be only forward-declared
+		auto t = f->getAccess() == AS_public and is_bindable(*f) ? dyn_cast_or_null<ClassTemplateSpecializationDecl>(f->getType()->getAsCXXRecordDecl()) : nullptr;
+		for( uint i = 0; t and i < t->getTemplateArgs().size(); ++i ) {
+			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Type ) binder::add_relevant_includes(t->getTemplateArgs()[i].getAsType().getDesugaredType(C->getASTContext()), includes, 1);
+		}
+	}
+
 	includes.add_include("<sstream> // __str__");
 }
 
-- 
2.43.0


From 98dd12bb5f210a5593e31472ec79d9adaefe1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:39 +0000
Subject: [PATCH 26/38] fix: look through type aliases of pointers and
 references when collecting includes and requests

---
 source/type.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/type.cpp b/source/type.cpp
index ab52d34..be6891f 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -379,8 +379,8 @@ void add_relevant_includes(QualType const &qt, /*const ASTContext &context,*/ In
 {
 	// QualType qt = qt.getDesugaredType(context);
 	// outs() << "add_relevant_includes(qt): " << qt.getAsString() << "\n";
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) add_relevant_includes(pt->getPointeeType(), includes, level);
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) add_relevant_includes(rt->getPointeeType(), includes, level);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) add_relevant_includes(pt->getPointeeType(), includes, level);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) add_relevant_includes(rt->getPointeeType(), includes, level);
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) add_relevant_includes(r, includes, level);
 	if( EnumDecl *e = dyn_cast_or_null<EnumDecl>(qt->getAsTagDecl()) ) add_relevant_includes(e, includes, level);
 }
@@ -448,9 +448,9 @@ void request_bindings(clang::QualType const &qt, Context &context)
 			if( td->isCompleteDefinition() or dyn_cast<ClassTemplateSpecializationDecl>(td) ) context.request_bindings(typename_from_type_decl(td));
 		}
 
-		if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) { request_bindings(pt->getPointeeType() /*.getCanonicalType()*/, context); }
+		if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) { request_bindings(pt->getPointeeType() /*.getCanonicalType()*/, context); }
 
-		if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) { request_bindings(rt->getPointeeType() /*.getCanonicalType()*/, context); }
+		if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) { request_bindings(rt->getPointeeType() /*.getCanonicalType()*/, context); }
 	}
 }
 
-- 
2.43.0


From b10ea0f54cd0f4e1534e0c63a1905988a55950f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:39 +0000
Subject: [PATCH 27/38] fix: do not qualify std::nullptr_t twice

---
 source/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/type.cpp b/source/type.cpp
index be6891f..bbfce03 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -508,7 +508,7 @@ string standard_name_raw(string const &type)
 
 		make_pair("class std::__thread_id", "std::thread::id"), make_pair("std::__thread_id", "std::thread::id"),
 
-		make_pair("nullptr_t", "std::nullptr_t"),
+		make_pair("std::nullptr_t", "nullptr_t"), make_pair("nullptr_t", "std::nullptr_t"), // depending on Clang version name could be already qualified
 
 		// make_pair("const class ", "const "),
 		// make_pair("const struct ", "const "),
-- 
2.43.0


From 7c0c815086a23d590bce866ece52a1f12f9abbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:39 +0000
Subject: [PATCH 28/38] fix: do not bind functions that take or return pointers
 to members

---
 source/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/type.cpp b/source/type.cpp
index bbfce03..3cb7c2e 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -391,7 +391,7 @@ bool is_bindable(QualType const &qt)
 {
 	bool r = true;
 
-	r &= !qt->isFunctionPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
+	r &= !qt->isFunctionPointerType() and !qt->isMemberPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
 		 !qt->isArrayType(); // and  !qt->isConstantArrayType()  and  !qt->isIncompleteArrayType()  and  !qt->isVariableArrayType()  and  !qt->isDependentSizedArrayType()
 
 	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) {
-- 
2.43.0


From 68ca1bcdf9c9cd572ca95f96d753e1d8795063cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:39 +0000
Subject: [PATCH 29/38] fix: find the header of declarations that are produced
 by macros

---
 source/type.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/type.cpp b/source/type.cpp
index 3cb7c2e..ad4de42 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -83,7 +83,10 @@ string relevant_include(NamedDecl const *decl)
 	ASTContext &ast_context(decl->getASTContext());
 	SourceManager &sm(ast_context.getSourceManager());
 
-	FileID fid = sm.getFileID(decl->getLocation());
+	SourceLocation location = decl->getLocation();
+	if( location.isMacroID() and !sm.isInSystemHeader(location) ) location = sm.getExpansionLoc(location); // declaration produced by macro
+
+	FileID fid = sm.getFileID(location);
 	SourceLocation include = sm.getIncludeLoc(fid);
 
 	// outs() << "SL: "; include.dump(sm); outs() << "\n";
-- 
2.43.0


From 1854a63080da492f8a1a261388e5a56c1cf8201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:28 +0000
Subject: [PATCH 30/38] fix: do not bind functions from friend declarations
 alone

---
 source/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/main.cpp b/source/main.cpp
index 5db6d64..bf8fd47 100644
--- a/source/main.cpp
+++ b/source/main.cpp
@@ -113,6 +113,8 @@ public:
 		if( F->isCXXInstanceMember() or isa<CXXMethodDecl>(F) ) return true;
 
 		if( binder::is_bindable(F) ) {
+			if( F->getFriendObjectKind() == Decl::FOK_Undeclared ) return true; // friend declaration alone does not make name visible, if function is declared in namespace scope it will be binded from there
+
 			binder::BinderOP b = std::make_shared<binder::FunctionBinder>(F);
 			context.add(b);
 		}
-- 
2.43.0


From bf9887ac1e03d1e3a72534a38fc9c8e4424a0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:39 +0000
Subject: [PATCH 31/38] fix: escape all text that is placed in string literals
 of generated code

---
 source/class.cpp    |  6 +++---
 source/function.cpp |  4 ++--
 source/util.cpp     | 15 ++++++++++++---
 source/util.hpp     |  3 +++
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index d07b593..da8c83c 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1043,7 +1043,7 @@ string bind_forward_declaration(CXXRecordDecl const *C, Context &context)
 		if( d->getAccess() != AS_public ) maybe_holder_type = ", " + qualified_name + '*';
 	}
 
-	c += '\t' + R"(pybind11::class_<{}{}>({}, "{}");)"_format(qualified_name, maybe_holder_type, module_variable_name, python_class_name(C)) + "\n\n";
+	c += '\t' + R"(pybind11::class_<{}{}>({}, "{}");)"_format(qualified_name, maybe_holder_type, module_variable_name, escape_string_literal(python_class_name(C))) + "\n\n";
 
 	return c;
 }
@@ -1110,7 +1110,7 @@ void ClassBinder::bind_with(string const &binder, Context &context)
 
 			string templ = mangle_type_name(standard_name(template_argument_to_string(t->getTemplateArgs()[i])), true);
 			fix_boolean_types(templ);
-			c += ", \"" + templ + '"';
+			c += ", \"" + escape_string_literal(templ) + '"';
 		}
 	}
 
@@ -1438,7 +1438,7 @@ void ClassBinder::bind(Context &context)
 				'\n';
 		}
 		c += '\t' +
-			 R"(pybind11::class_<{}{}{}{}> cl({}, "{}", "{}"{});)"_format(qualified_name, maybe_holder_type, maybe_trampoline, base_classes, module_variable_name, python_class_name(C),
+			 R"(pybind11::class_<{}{}{}{}> cl({}, "{}", "{}"{});)"_format(qualified_name, maybe_holder_type, maybe_trampoline, base_classes, module_variable_name, escape_string_literal(python_class_name(C)),
 																		generate_documentation_string_for_declaration(C), extra_annotation) +
 			 '\n';
 	}
diff --git a/source/function.cpp b/source/function.cpp
index 6c8483b..6b20e78 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -382,8 +382,8 @@ string bind_function(FunctionDecl const *F, uint args_to_bind, bool request_bind
 
 		documentation = generate_documentation_string_for_declaration(F);
 		if( documentation.size() ) documentation += "\\n\\n";
-		documentation += "C++: " + standard_name(F->getQualifiedNameAsString() + "(" + function_arguments(F) + ')' + (m and m->isConst() ? " const" : "") + " --> " +
-												 standard_name(F->getReturnType() ) );
+		documentation += "C++: " + escape_string_literal( standard_name(F->getQualifiedNameAsString() + "(" + function_arguments(F) + ')' + (m and m->isConst() ? " const" : "") + " --> " +
+												 standard_name(F->getReturnType() ) ) );
 	}
 	else {
 		pair<string, string> args = function_arguments_for_lambda(F, args_to_bind);
diff --git a/source/util.cpp b/source/util.cpp
index cef0bc5..5c8ab54 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -86,6 +86,17 @@ string replace_(string const &s, string const &from, string const &to)
 }
 
 
+/// escape text so it could be used between quotes of C++ string literal
+string escape_string_literal(string text)
+{
+	replace(text, "\\", "\\\\");
+	replace(text, "\"", "\\\"");
+	replace(text, "\n", "\\n");
+	while( text.find("??") != string::npos ) replace(text, "??", "?\\?"); // avoid accidental trigraphs
+	return text;
+}
+
+
 /// check if string begins with given prefix
 bool begins_with(std::string const &source, std::string const &prefix)
 {
@@ -362,9 +373,7 @@ std::string generate_documentation_string_for_declaration(clang::Decl const *dec
 		// replace(text, "\n\n\n\n", "\n\n");
 		// replace(text, "\n\n\n",   "\n\n");
 
-		replace(text, "\\", "\\\\");
-		replace(text, "\"", "\\\"");
-		replace(text, "\n", "\\n");
+		text = escape_string_literal(text);
 
 		// outs() << text << "\n";
 	}
diff --git a/source/util.hpp b/source/util.hpp
index 86c00ac..29aa6a6 100644
--- a/source/util.hpp
+++ b/source/util.hpp
@@ -32,6 +32,9 @@ std::vector<std::string> split(std::string const &buffer, std::string const &sep
 /// Replace all occurrences of string in-place
 void replace(std::string &r, std::string const &from, std::string const &to);
 
+/// escape text so it could be used between quotes of C++ string literal
+std::string escape_string_literal(std::string text);
+
 /// Replace all occurrences of string and return result as new string
 std::string replace_(std::string const &s, std::string const &from, std::string const &to);
 
-- 
2.43.0


From edb81d4290509722dd36689fbedd3c512cf463db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:55 +0000
Subject: [PATCH 32/38] fix: do not bind enums of unnamed namespaces

---
 source/enum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/enum.cpp b/source/enum.cpp
index 4eac2ea..a9af1b5 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -49,6 +49,7 @@ bool is_bindable(EnumDecl const *E)
 	// else return true;
 
 	if( E->isCXXInstanceMember() ) return false;
+	if( E->isInAnonymousNamespace() ) return false;
 
 	string name = E->getNameAsString(); // getQualifiedNameAsString(); //
 	// if( name.rfind(')') != string::npos ) return false; // checking that this is not an "(anonymous)" enum
-- 
2.43.0


From 33323afe9b813eaccd3e51e91497076bc07e72fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:55 +0000
Subject: [PATCH 33/38] fix: treat types as inaccessible when enclosing
 classes, templates or template arguments are

---
 source/class.cpp |  2 +-
 source/type.cpp  | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 source/type.hpp  |  4 ++++
 3 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index da8c83c..f888154 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -304,7 +304,7 @@ bool is_bindable_raw(clang::CXXRecordDecl const *C)
 	// outs() << qualified_name << ": anonymous_name:" << anonymous_name << " isAnonymousStructOrUnion: " << C->isAnonymousStructOrUnion() << " hasNameForLinkage:" << C->hasNameForLinkage() << "\n";
 
 	if( C->isDependentType() ) return false;
-	if( C->getAccess() == AS_protected or C->getAccess() == AS_private ) return false;
+	if( !is_accessible(C) ) return false;
 
 	if( !C->isCompleteDefinition() ) {
 		if( auto ts = dyn_cast<ClassTemplateSpecializationDecl>(C) ) {
diff --git a/source/type.cpp b/source/type.cpp
index ad4de42..cf945c4 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -389,6 +389,52 @@ void add_relevant_includes(QualType const &qt, /*const ASTContext &context,*/ In
 }
 
 
+static bool is_accessible(QualType qt)
+{
+	while( !qt->getPointeeType().isNull() ) qt = qt->getPointeeType();
+	if( auto f = qt->getAs<FunctionProtoType>() ) {
+		for( auto const &p : f->getParamTypes() ) {
+			if( !is_accessible(p) ) return false;
+		}
+		return is_accessible(f->getReturnType());
+	}
+	TagDecl *td = qt->getAsTagDecl();
+	return !td or is_accessible(td);
+}
+
+static bool is_accessible(TemplateArgument const &a)
+{
+	if( a.getKind() == TemplateArgument::Type ) return is_accessible(a.getAsType());
+	if( a.getKind() == TemplateArgument::Integral ) return is_accessible(a.getIntegralType());
+	if( a.getKind() == TemplateArgument::Pack ) {
+		for( auto const &p : a.pack_elements() ) {
+			if( !is_accessible(p) ) return false;
+		}
+	}
+	return true;
+}
+
+// check if given type, the classes it is nested in and its template arguments could be named outside of class definitions
+bool is_accessible(TagDecl const *td)
+{
+	if( td->isInAnonymousNamespace() ) return false;
+
+	for( Decl const *d = td; d and isa<TagDecl>(d); d = dyn_cast<Decl>(d->getDeclContext()) ) {
+		if( d->getAccess() == AS_protected or d->getAccess() == AS_private ) return false;
+
+		if( auto ts = dyn_cast<ClassTemplateSpecializationDecl>(d) ) {
+			auto access = ts->getSpecializedTemplate()->getAccess();
+			if( access == AS_protected or access == AS_private ) return false;
+
+			for( auto const &a : ts->getTemplateArgs().asArray() ) {
+				if( !is_accessible(a) ) return false;
+			}
+		}
+	}
+	return true;
+}
+
+
 // check if given QualType is bindable
 bool is_bindable(QualType const &qt)
 {
@@ -434,7 +480,7 @@ bool is_bindable(QualType const &qt)
 			r &= is_bindable(rd);
 		}
 		if( TagDecl *td = tp->getAsTagDecl() ) {
-			if( td->getAccess() == AS_protected or td->getAccess() == AS_private ) return false;
+			if( !is_accessible(td) ) return false;
 		}
 	}
 
diff --git a/source/type.hpp b/source/type.hpp
index 78f298e..3d9f9d3 100644
--- a/source/type.hpp
+++ b/source/type.hpp
@@ -46,6 +46,10 @@ void add_relevant_include_for_decl(clang::NamedDecl const *decl, IncludeSet &inc
 void add_relevant_includes(clang::QualType const &qt, /*clang::ASTContext const &context,*/ IncludeSet &includes, int level);
 
 
+/// check if given type, the classes it is nested in and its template arguments could be named outside of class definitions
+bool is_accessible(clang::TagDecl const *td);
+
+
 /// check if given QualType is bindable
 bool is_bindable(clang::QualType const &qt);
 
-- 
2.43.0


From 2e364fdb420e2e419714d86bbf65fca0b42c9a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:01 +0000
Subject: [PATCH 34/38] fix: do not follow invalid declarations into endless
 recursion

---
 source/class.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index f888154..77ce502 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -143,7 +143,7 @@ bool is_copy_assignable(QualType qt)
 				if( !is_copy_assignable(b->getType()) ) return false;
 			}
 			for( auto f = C->field_begin(); f != C->field_end(); ++f ) {
-				if( f->getType().isConstQualified() or f->getType()->isReferenceType() or !is_copy_assignable(f->getType()) ) return false;
+				if( f->isInvalidDecl() or f->getType().isConstQualified() or f->getType()->isReferenceType() or !is_copy_assignable(f->getType()) ) return false;
 			}
 		}
 	}
@@ -546,7 +546,7 @@ bool member_default_constructor_available(CXXRecordDecl const *C)
 	for( auto f = C->field_begin(); f != C->field_end(); ++f ) {
 		if( f->hasInClassInitializer() or f->isUnnamedBitfield() ) continue;
 
-		if( f->getType()->isReferenceType() ) return false;
+		if( f->isInvalidDecl() or f->getType()->isReferenceType() ) return false;
 
 		if( RecordType const *rt = f->getType()->getBaseElementTypeUnsafe()->getAs<RecordType>() ) {
 			CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl())->getDefinition();
@@ -1078,7 +1078,7 @@ string ClassBinder::maybe_base_classes(Context &context, bool &adjust_pointers)
 						r += ", {}"_format(class_qualified_name(R));
 
 						++bases;
-						adjust_pointers |= b->isVirtual() or !C->getASTContext().getASTRecordLayout(C).getBaseClassOffset(R).isZero();
+						adjust_pointers |= b->isVirtual() or C->isInvalidDecl() or !C->getASTContext().getASTRecordLayout(C).getBaseClassOffset(R).isZero();
 
 						binder::request_bindings(b->getType().getCanonicalType(), context);
 
-- 
2.43.0


From f644255e4d1b712f5a351ec0efd0ef0c7b195ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:27 +0000
Subject: [PATCH 35/38] fix: keep the includes that a nested class's trampoline
 and insertion operator need

Code bound for a nested class is emitted with its enclosing class, but the declarations its prefix code and operator<< binding depend on were dropped, so generated files could lack the header that defines them.
---
 source/class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/class.cpp b/source/class.cpp
index 77ce502..9fa4412 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1347,6 +1347,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			c += b.code();
 			c += '\n';
 			prefix_code_ += b.prefix_code();
+			prefix_includes_.insert(prefix_includes_.end(), b.prefix_includes_.begin(), b.prefix_includes_.end());
 
 			// classes defined inside enclosing class: their bases have to be bound before enclosing class
 			if( isa<CXXRecordDecl>(innerC->getLexicalDeclContext()) and !isa<ClassTemplateSpecializationDecl>(innerC) and !isa<ClassTemplateSpecializationDecl>(C) ) {
-- 
2.43.0


From a8ec3d6c91227a754a568197b65e161d0205db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 36/38] fix: specialization of template whose only argument is
 an empty parameter pack was spelled without opening bracket

---
 source/class.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 9fa4412..5a5b1d2 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -62,7 +62,8 @@ string template_specialization(clang::CXXRecordDecl const *C)
 			// if( t->getTemplateArgs()[i].ArgKind() == TemplateArgument::ArgKind::Integral ) outs() << " template arg:" << t->getTemplateArgs()[i].<< "\n";
 			// outs() << expresion_to_string( t->getTemplateArgs()[i].getAsExpr() ) << "\n";
 		}
-		templ.back() = '>';
+		if( templ.size() == 1 ) templ += '>'; // case for `<>`
+		else templ.back() = '>';
 	}
 
 	fix_boolean_types(templ);
-- 
2.43.0


From 79ae72a53cda1f0627e82da82b1694ab6adccf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 37/38] fix: header with definition of template template
 argument was not included when template is forward declared elsewhere

---
 source/class.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 5a5b1d2..5b346ce 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -409,7 +409,11 @@ void add_relevant_includes(clang::CXXRecordDecl const *C, IncludeSet &includes,
 		for( uint i = 0; i < t->getTemplateArgs().size(); ++i ) {
 			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Type ) { add_relevant_includes(t->getTemplateArgs()[i].getAsType().getDesugaredType(C->getASTContext()), includes, level + 1); }
 			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Template ) {
-				add_relevant_include_for_decl(t->getTemplateArgs()[i].getAsTemplate().getAsTemplateDecl()->getTemplatedDecl(), includes);
+				NamedDecl *td = t->getTemplateArgs()[i].getAsTemplate().getAsTemplateDecl()->getTemplatedDecl();
+				if( auto c = dyn_cast_or_null<CXXRecordDecl>(td) ) {
+					if( c->getDefinition() ) td = c->getDefinition(); // template could be forward declared in other headers
+				}
+				add_relevant_include_for_decl(td, includes);
 			}
 
 			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Declaration ) {
-- 
2.43.0


From c59324b7a49ca36f5d1f08f8b5f3259a48474127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 38/38] fix: elements of parameter packs were ignored when
 includes and skipped template arguments are determined

---
 source/class.cpp    | 18 +++++++++---------
 source/function.cpp |  3 +--
 source/util.cpp     | 12 ++++++++++++
 source/util.hpp     |  4 ++++
 4 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 5b346ce..4f3fbb6 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -101,8 +101,8 @@ vector<QualType> get_type_dependencies(CXXRecordDecl const *C /*, bool include_m
 	vector<QualType> r;
 
 	if( auto t = dyn_cast<ClassTemplateSpecializationDecl>(C) ) {
-		for( uint i = 0; i < t->getTemplateArgs().size(); ++i ) {
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Type ) { r.push_back(t->getTemplateArgs()[i].getAsType() /*.getDesugaredType(C->getASTContext())*/); }
+		for( auto const &a : template_arguments(t->getTemplateArgs()) ) {
+			if( a.getKind() == TemplateArgument::Type ) { r.push_back(a.getAsType() /*.getDesugaredType(C->getASTContext())*/); }
 		}
 	}
 
@@ -406,21 +406,21 @@ void add_relevant_includes(clang::CXXRecordDecl const *C, IncludeSet &includes,
 
 	if( auto t = dyn_cast<ClassTemplateSpecializationDecl>(C) ) {
 
-		for( uint i = 0; i < t->getTemplateArgs().size(); ++i ) {
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Type ) { add_relevant_includes(t->getTemplateArgs()[i].getAsType().getDesugaredType(C->getASTContext()), includes, level + 1); }
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Template ) {
-				NamedDecl *td = t->getTemplateArgs()[i].getAsTemplate().getAsTemplateDecl()->getTemplatedDecl();
+		for( auto const &a : template_arguments(t->getTemplateArgs()) ) {
+			if( a.getKind() == TemplateArgument::Type ) { add_relevant_includes(a.getAsType().getDesugaredType(C->getASTContext()), includes, level + 1); }
+			if( a.getKind() == TemplateArgument::Template ) {
+				NamedDecl *td = a.getAsTemplate().getAsTemplateDecl()->getTemplatedDecl();
 				if( auto c = dyn_cast_or_null<CXXRecordDecl>(td) ) {
 					if( c->getDefinition() ) td = c->getDefinition(); // template could be forward declared in other headers
 				}
 				add_relevant_include_for_decl(td, includes);
 			}
 
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Declaration ) {
-				ValueDecl *v = t->getTemplateArgs()[i].getAsDecl();
+			if( a.getKind() == TemplateArgument::Declaration ) {
+				ValueDecl *v = a.getAsDecl();
 				add_relevant_include_for_decl(v, includes);
 			}
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Integral ) { add_relevant_includes(t->getTemplateArgs()[i].getIntegralType(), includes, level + 1); }
+			if( a.getKind() == TemplateArgument::Integral ) { add_relevant_includes(a.getIntegralType(), includes, level + 1); }
 		}
 	}
 
diff --git a/source/function.cpp b/source/function.cpp
index 6b20e78..2ede43c 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -301,8 +301,7 @@ vector<QualType> get_type_dependencies(FunctionDecl const *F)
 	// if( F->getTemplatedKind() == FunctionDecl::TK_MemberSpecialization  or   F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplateSpecialization ) {
 	if( F->getTemplatedKind() != FunctionDecl::TK_NonTemplate ) {
 		if( TemplateArgumentList const *tal = F->getTemplateSpecializationArgs() ) {
-			for( uint i = 0; i < tal->size(); ++i ) {
-				TemplateArgument const &ta(tal->get(i));
+			for( auto const &ta : template_arguments(*tal) ) {
 				if( ta.getKind() == TemplateArgument::Type ) r.push_back(ta.getAsType());
 			}
 		}
diff --git a/source/util.cpp b/source/util.cpp
index 5c8ab54..f42a28f 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -272,6 +272,18 @@ string template_argument_to_string(clang::TemplateArgument const &t)
 }
 
 
+/// list of template arguments where each parameter pack is replaced with its elements
+vector<clang::TemplateArgument> template_arguments(clang::TemplateArgumentList const &list)
+{
+	vector<clang::TemplateArgument> r;
+	for( auto const &a : list.asArray() ) {
+		if( a.getKind() == clang::TemplateArgument::Pack ) r.insert(r.end(), a.pack_begin(), a.pack_end());
+		else r.push_back(a);
+	}
+	return r;
+}
+
+
 // calcualte line in source file for NamedDecl
 string line_number(NamedDecl const *decl)
 {
diff --git a/source/util.hpp b/source/util.hpp
index 29aa6a6..fda5575 100644
--- a/source/util.hpp
+++ b/source/util.hpp
@@ -82,6 +82,10 @@ std::string expresion_to_string(clang::Expr *e);
 std::string template_argument_to_string(clang::TemplateArgument const &);
 
 
+/// list of template arguments where each parameter pack is replaced with its elements
+std::vector<clang::TemplateArgument> template_arguments(clang::TemplateArgumentList const &);
+
+
 /// calculate line in source file for NamedDecl
 std::string line_number(clang::NamedDecl const *decl);
 
-- 
2.43.0

