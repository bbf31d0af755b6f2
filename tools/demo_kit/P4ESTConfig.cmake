# Ubuntu's libp4est-dev ships p4est without a CMake package file: this describes it.
include( "${CMAKE_CURRENT_LIST_DIR}/SCConfig.cmake" )
if( NOT TARGET P4EST::P4EST )
    add_library( P4EST::P4EST SHARED IMPORTED )
    set_target_properties( P4EST::P4EST PROPERTIES
        IMPORTED_LOCATION /usr/lib/x86_64-linux-gnu/libp4est.so
        INTERFACE_LINK_LIBRARIES "SC::SC" )
endif()
set( P4EST_FOUND TRUE )
set( P4EST_VERSION 2.3.6 )
