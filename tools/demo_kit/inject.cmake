function( demo_inject )
    target_compile_definitions( T8 PUBLIC OMPI_SKIP_MPICXX=1 )
    target_compile_options( T8 PUBLIC -include ${KIT}/sc_compat.h )
    target_sources( T8 PRIVATE ${KIT}/sc_compat.c )
    add_executable( demo ${KIT}/demo.cxx )
    target_link_libraries( demo PRIVATE T8 )
    target_include_directories( demo PRIVATE ${CMAKE_SOURCE_DIR}/src ${CMAKE_SOURCE_DIR} )
endfunction()
cmake_language( DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL demo_inject )
