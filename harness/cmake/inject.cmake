# Injected into the repository's own CMakeLists.txt (CMAKE_PROJECT_Symmetrix_INCLUDE), so that the
# checks build exactly the sources the repository lists, from the current working tree.
# The submodules are empty offline: take pybind11, OpenBLAS and nlohmann/json from the system and
# sphericart from the stand-in next to this file.
include_guard(GLOBAL)
set(VERIF_CMAKE_DIR ${CMAKE_CURRENT_LIST_DIR})
macro(add_subdirectory dir)
    if("${dir}" STREQUAL "external/pybind11")
        find_package(pybind11 REQUIRED)
    elseif("${dir}" STREQUAL "external/sphericart")
        add_library(sphericart INTERFACE)
        target_include_directories(sphericart INTERFACE ${VERIF_CMAKE_DIR}/../shim)
    elseif("${dir}" STREQUAL "external/kokkos")
        add_library(verif_kokkos INTERFACE)
        target_include_directories(verif_kokkos INTERFACE ${VERIF_CMAKE_DIR}/../shim/kokkos)
        add_library(Kokkos::kokkos ALIAS verif_kokkos)
    elseif("${dir}" STREQUAL "external/kokkos-kernels")
        add_library(Kokkos::kokkoskernels ALIAS verif_kokkos)
    else()
        _add_subdirectory(${dir} ${ARGN})
    endif()
endmacro()
function(verif_filter target)
    get_target_property(options ${target} COMPILE_OPTIONS)
    if(options)
        string(REPLACE "-march=native" "-march=x86-64-v3" options "${options}")
        set_property(TARGET ${target} PROPERTY COMPILE_OPTIONS ${options})
    endif()
endfunction()
function(verif_finish)
    verif_filter(symmetrix)
    verif_filter(symmetrix_bindings)
    # cblas.hpp includes "../external/cblas-prototypes/cblas.h": found relative to this directory
    target_include_directories(symmetrix PRIVATE ${VERIF_CMAKE_DIR}/shim/source)
    # parts of the C++ interface without Python bindings
    pybind11_add_module(verif_ext MODULE ${VERIF_CMAKE_DIR}/../ext.cpp)
    target_link_libraries(verif_ext PRIVATE symmetrix)
    if(SYMMETRIX_KOKKOS)
        pybind11_add_module(verif_kk MODULE ${VERIF_CMAKE_DIR}/../kk.cpp)
        target_link_libraries(verif_kk PRIVATE symmetrix Kokkos::kokkos)
    endif()
    # the LAMMPS pair styles on a stand-in for LAMMPS (built on demand)
    find_package(Threads REQUIRED)
    set(pairdir ${CMAKE_SOURCE_DIR}/../pair_symmetrix)
    pybind11_add_module(verif_lmp MODULE EXCLUDE_FROM_ALL ${VERIF_CMAKE_DIR}/../lammps/machine.cpp ${pairdir}/pair_symmetrix_mace.cpp)
    target_include_directories(verif_lmp PRIVATE ${VERIF_CMAKE_DIR}/../lammps ${pairdir})
    target_link_libraries(verif_lmp PRIVATE symmetrix Threads::Threads)
    if(SYMMETRIX_KOKKOS)
        pybind11_add_module(verif_lmpkk MODULE EXCLUDE_FROM_ALL ${VERIF_CMAKE_DIR}/../lammps/machine.cpp ${pairdir}/pair_symmetrix_mace_kokkos.cpp)
        target_compile_definitions(verif_lmpkk PRIVATE LMP_MOCK_KOKKOS)
        target_include_directories(verif_lmpkk PRIVATE ${VERIF_CMAKE_DIR}/../lammps ${pairdir})
        target_link_libraries(verif_lmpkk PRIVATE symmetrix Kokkos::kokkos Threads::Threads)
    endif()
endfunction()
cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR} CALL verif_finish)
