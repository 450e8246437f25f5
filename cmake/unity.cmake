# Injected through CMAKE_PROJECT_INCLUDE: only speeds the build up, never changes what is compiled.
# Files that import all of namespace llvm cannot share a unity chunk with the others.
function(vf_finish)
  foreach(t ClazyPlugin)
    if(TARGET ${t})
      get_target_property(srcs ${t} SOURCES)
      foreach(s ${srcs})
        if(EXISTS "${s}")
          file(READ "${s}" txt)
        else()
          file(READ "${CMAKE_SOURCE_DIR}/${s}" txt)
        endif()
        if(txt MATCHES "using namespace llvm;" OR NOT s MATCHES "/checks/")
          set_source_files_properties("${s}" PROPERTIES SKIP_UNITY_BUILD_INCLUSION ON)
        endif()
      endforeach()
      set_target_properties(${t} PROPERTIES UNITY_BUILD ON UNITY_BUILD_BATCH_SIZE 10)
    endif()
  endforeach()
endfunction()
cmake_language(DEFER CALL vf_finish)
