# Included by the project() call of /repo/CMakeLists.txt (CMAKE_PROJECT_T8CODE_INCLUDE).
# Compiles the WHOLE library (nothing is left out) with the libsc aliases of harness/shim, the
# sanitizer flags of this build (VERIF_FLAGS), and adds the harness programs.
function( verif_inject )
    target_compile_definitions( T8 PUBLIC OMPI_SKIP_MPICXX=1 )
    target_compile_options( T8 PUBLIC -include ${VERIF_ROOT}/harness/shim/sc_compat.h )
    separate_arguments( flags UNIX_COMMAND "${VERIF_FLAGS}" )
    target_compile_options( T8 PUBLIC ${flags} )
    target_link_options( T8 PUBLIC ${flags} )
    target_sources( T8 PRIVATE ${VERIF_ROOT}/harness/shim/sc_compat.c )
    include( ${VERIF_ROOT}/harness/programs.cmake )
endfunction()
cmake_language( DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL verif_inject )
