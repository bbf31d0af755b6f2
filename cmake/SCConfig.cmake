# Ubuntu's libp4est-dev ships libsc without a CMake package file: this describes it.
if( NOT TARGET SC::SC )
    find_package( MPI REQUIRED COMPONENTS C )
    add_library( SC::SC SHARED IMPORTED )
    set_target_properties( SC::SC PROPERTIES
        IMPORTED_LOCATION /usr/lib/x86_64-linux-gnu/libsc.so
        INTERFACE_LINK_LIBRARIES "MPI::MPI_C;m" )
endif()
set( SC_FOUND TRUE )
set( SC_VERSION 2.3.6 )
