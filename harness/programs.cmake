# harness executables; EXCLUDE_FROM_ALL so that a check builds only what it runs
function( verif_prog name )
    add_executable( ${name} EXCLUDE_FROM_ALL ${VERIF_ROOT}/harness/${name}.cxx ${ARGN} )
    target_link_libraries( ${name} PRIVATE T8 )
    target_include_directories( ${name} PRIVATE ${VERIF_ROOT}/harness ${CMAKE_SOURCE_DIR}/src ${CMAKE_SOURCE_DIR} )
    set_target_properties( ${name} PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/verif-bin )
endfunction()
verif_prog( p_scheme )
verif_prog( p_cmesh ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_unif ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_join ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_examples ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_msh ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_basic ${VERIF_ROOT}/harness/p_basic_c.c )
verif_prog( p_forest ${VERIF_ROOT}/harness/pmpi.cxx ${CMAKE_SOURCE_DIR}/api/t8_fortran_interface/t8_fortran_interface.c )
target_include_directories( p_forest PRIVATE ${CMAKE_SOURCE_DIR}/api/t8_fortran_interface )
verif_prog( p_query ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_indep ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_life ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_data ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_geom ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_vtk ${VERIF_ROOT}/harness/pmpi.cxx )
verif_prog( p_handle ${VERIF_ROOT}/harness/pmpi.cxx )
