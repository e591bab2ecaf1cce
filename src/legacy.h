#pragma once
// The legacy interface, called either from C or through its Fortran bindings (f25.f90).
#include "odc/odccapi.h"

inline bool& viaFortran() {
    static bool f = false;
    return f;
}

extern "C" {
double fl_odb_count(const char*);
oda_ptr fl_odb_select_create(const char*, int*);
int fl_odb_select_destroy(oda_ptr);
oda_ptr fl_odb_read_create(const char*, int*);
int fl_odb_read_destroy(oda_ptr);
oda_read_iterator_ptr fl_odb_create_read_iterator(oda_ptr, const char*, int*);
int fl_odb_read_iterator_destroy(oda_read_iterator_ptr);
int fl_odb_read_iterator_get_no_of_columns(oda_read_iterator_ptr, int*);
int fl_odb_read_iterator_get_column_type(oda_read_iterator_ptr, int, int*);
int fl_odb_read_iterator_get_column_name(oda_read_iterator_ptr, int, char**, int*);
int fl_odb_read_iterator_get_bitfield(oda_read_iterator_ptr, int, char**, char**, int*, int*);
int fl_odb_read_iterator_get_next_row(oda_read_iterator_ptr, int, double*, int*);
int fl_odb_read_iterator_get_missing_value(oda_read_iterator_ptr, int, double*);
int fl_odb_read_iterator_get_row_buffer_size_doubles(oda_read_iterator_ptr, int*);
int fl_odb_read_iterator_get_column_offset(oda_read_iterator_ptr, int, int*);
int fl_odb_read_iterator_get_column_size_doubles(oda_read_iterator_ptr, int, int*);
oda_select_iterator_ptr fl_odb_create_select_iterator(oda_ptr, const char*, int*);
oda_select_iterator_ptr fl_odb_create_select_iterator_from_file(oda_ptr, const char*, const char*, int*);
int fl_odb_select_iterator_destroy(oda_select_iterator_ptr);
int fl_odb_select_iterator_get_no_of_columns(oda_select_iterator_ptr, int*);
int fl_odb_select_iterator_get_row_buffer_size_doubles(oda_read_iterator_ptr, int*);
int fl_odb_select_iterator_get_column_offset(oda_read_iterator_ptr, int, int*);
int fl_odb_select_iterator_get_column_size_doubles(oda_read_iterator_ptr, int, int*);
int fl_odb_select_iterator_get_missing_value(oda_select_iterator_ptr, int, double*);
int fl_odb_select_iterator_get_column_type(oda_select_iterator_ptr, int, int*);
int fl_odb_select_iterator_get_column_name(oda_select_iterator_ptr, int, char**, int*);
int fl_odb_select_iterator_get_bitfield(oda_select_iterator_ptr, int, char**, char**, int*, int*);
int fl_odb_select_iterator_get_next_row(oda_select_iterator_ptr, int, double*, int*);
oda_writer_ptr fl_odb_writer_create(const char*, int*);
int fl_odb_writer_destroy(oda_writer_ptr);
oda_write_iterator_ptr fl_odb_create_write_iterator(oda_writer_ptr, const char*, int*);
oda_write_iterator_ptr fl_odb_create_append_iterator(oda_writer_ptr, const char*, int*);
int fl_odb_write_iterator_destroy(oda_write_iterator_ptr);
int fl_odb_write_iterator_set_no_of_columns(oda_write_iterator_ptr, int);
int fl_odb_write_iterator_set_column(oda_write_iterator_ptr, int, int, const char*);
int fl_odb_write_iterator_set_bitfield(oda_write_iterator_ptr, int, int, const char*, const char*, const char*);
int fl_odb_write_iterator_set_missing_value(oda_write_iterator_ptr, int, double);
int fl_odb_write_iterator_set_column_size_doubles(oda_write_iterator_ptr, int, int);
int fl_odb_write_iterator_get_row_buffer_size_doubles(oda_write_iterator_ptr, int*);
int fl_odb_write_iterator_get_column_offset(oda_write_iterator_ptr, int, int*);
int fl_odb_write_iterator_set_next_row(oda_write_iterator_ptr, double*, int);
int fl_odb_write_iterator_write_header(oda_write_iterator_ptr);
int fl_type(int);  // the constants of the Fortran module
}

inline double l_odb_count(const char* a0) {
    return viaFortran() ? fl_odb_count(a0) : odb_count(a0);
}
inline oda_ptr l_odb_select_create(const char* a0, int* a1) {
    return viaFortran() ? fl_odb_select_create(a0, a1) : odb_select_create(a0, a1);
}
inline int l_odb_select_destroy(oda_ptr a0) {
    return viaFortran() ? fl_odb_select_destroy(a0) : odb_select_destroy(a0);
}
inline oda_ptr l_odb_read_create(const char* a0, int* a1) {
    return viaFortran() ? fl_odb_read_create(a0, a1) : odb_read_create(a0, a1);
}
inline int l_odb_read_destroy(oda_ptr a0) {
    return viaFortran() ? fl_odb_read_destroy(a0) : odb_read_destroy(a0);
}
inline oda_read_iterator_ptr l_odb_create_read_iterator(oda_ptr a0, const char* a1, int* a2) {
    return viaFortran() ? fl_odb_create_read_iterator(a0, a1, a2) : odb_create_read_iterator(a0, a1, a2);
}
inline int l_odb_read_iterator_destroy(oda_read_iterator_ptr a0) {
    return viaFortran() ? fl_odb_read_iterator_destroy(a0) : odb_read_iterator_destroy(a0);
}
inline int l_odb_read_iterator_get_no_of_columns(oda_read_iterator_ptr a0, int* a1) {
    return viaFortran() ? fl_odb_read_iterator_get_no_of_columns(a0, a1) : odb_read_iterator_get_no_of_columns(a0, a1);
}
inline int l_odb_read_iterator_get_column_type(oda_read_iterator_ptr a0, int a1, int* a2) {
    return viaFortran() ? fl_odb_read_iterator_get_column_type(a0, a1, a2) : odb_read_iterator_get_column_type(a0, a1, a2);
}
inline int l_odb_read_iterator_get_column_name(oda_read_iterator_ptr a0, int a1, char** a2, int* a3) {
    return viaFortran() ? fl_odb_read_iterator_get_column_name(a0, a1, a2, a3) : odb_read_iterator_get_column_name(a0, a1, a2, a3);
}
inline int l_odb_read_iterator_get_bitfield(oda_read_iterator_ptr a0, int a1, char** a2, char** a3, int* a4, int* a5) {
    return viaFortran() ? fl_odb_read_iterator_get_bitfield(a0, a1, a2, a3, a4, a5) : odb_read_iterator_get_bitfield(a0, a1, a2, a3, a4, a5);
}
inline int l_odb_read_iterator_get_next_row(oda_read_iterator_ptr a0, int a1, double* a2, int* a3) {
    return viaFortran() ? fl_odb_read_iterator_get_next_row(a0, a1, a2, a3) : odb_read_iterator_get_next_row(a0, a1, a2, a3);
}
inline int l_odb_read_iterator_get_missing_value(oda_read_iterator_ptr a0, int a1, double* a2) {
    return viaFortran() ? fl_odb_read_iterator_get_missing_value(a0, a1, a2) : odb_read_iterator_get_missing_value(a0, a1, a2);
}
inline int l_odb_read_iterator_get_row_buffer_size_doubles(oda_read_iterator_ptr a0, int* a1) {
    return viaFortran() ? fl_odb_read_iterator_get_row_buffer_size_doubles(a0, a1) : odb_read_iterator_get_row_buffer_size_doubles(a0, a1);
}
inline int l_odb_read_iterator_get_column_offset(oda_read_iterator_ptr a0, int a1, int* a2) {
    if (!viaFortran())
        return odb_read_iterator_get_column_offset(a0, a1, a2);
    int r = fl_odb_read_iterator_get_column_offset(a0, a1, a2);  // counts from 1
    if (r == 0)
        --*a2;
    return r;
}
inline int l_odb_read_iterator_get_column_size_doubles(oda_read_iterator_ptr a0, int a1, int* a2) {
    return viaFortran() ? fl_odb_read_iterator_get_column_size_doubles(a0, a1, a2) : odb_read_iterator_get_column_size_doubles(a0, a1, a2);
}
inline oda_select_iterator_ptr l_odb_create_select_iterator(oda_ptr a0, const char* a1, int* a2) {
    return viaFortran() ? fl_odb_create_select_iterator(a0, a1, a2) : odb_create_select_iterator(a0, a1, a2);
}
inline oda_select_iterator_ptr l_odb_create_select_iterator_from_file(oda_ptr a0, const char* a1, const char* a2, int* a3) {
    return viaFortran() ? fl_odb_create_select_iterator_from_file(a0, a1, a2, a3) : odb_create_select_iterator_from_file(a0, a1, a2, a3);
}
inline int l_odb_select_iterator_destroy(oda_select_iterator_ptr a0) {
    return viaFortran() ? fl_odb_select_iterator_destroy(a0) : odb_select_iterator_destroy(a0);
}
inline int l_odb_select_iterator_get_no_of_columns(oda_select_iterator_ptr a0, int* a1) {
    return viaFortran() ? fl_odb_select_iterator_get_no_of_columns(a0, a1) : odb_select_iterator_get_no_of_columns(a0, a1);
}
inline int l_odb_select_iterator_get_row_buffer_size_doubles(oda_read_iterator_ptr a0, int* a1) {
    return viaFortran() ? fl_odb_select_iterator_get_row_buffer_size_doubles(a0, a1) : odb_select_iterator_get_row_buffer_size_doubles(a0, a1);
}
inline int l_odb_select_iterator_get_column_offset(oda_read_iterator_ptr a0, int a1, int* a2) {
    if (!viaFortran())
        return odb_select_iterator_get_column_offset(a0, a1, a2);
    int r = fl_odb_select_iterator_get_column_offset(a0, a1, a2);  // counts from 1
    if (r == 0)
        --*a2;
    return r;
}
inline int l_odb_select_iterator_get_column_size_doubles(oda_read_iterator_ptr a0, int a1, int* a2) {
    return viaFortran() ? fl_odb_select_iterator_get_column_size_doubles(a0, a1, a2) : odb_select_iterator_get_column_size_doubles(a0, a1, a2);
}
inline int l_odb_select_iterator_get_missing_value(oda_select_iterator_ptr a0, int a1, double* a2) {
    return viaFortran() ? fl_odb_select_iterator_get_missing_value(a0, a1, a2) : odb_select_iterator_get_missing_value(a0, a1, a2);
}
inline int l_odb_select_iterator_get_column_type(oda_select_iterator_ptr a0, int a1, int* a2) {
    return viaFortran() ? fl_odb_select_iterator_get_column_type(a0, a1, a2) : odb_select_iterator_get_column_type(a0, a1, a2);
}
inline int l_odb_select_iterator_get_column_name(oda_select_iterator_ptr a0, int a1, char** a2, int* a3) {
    return viaFortran() ? fl_odb_select_iterator_get_column_name(a0, a1, a2, a3) : odb_select_iterator_get_column_name(a0, a1, a2, a3);
}
inline int l_odb_select_iterator_get_bitfield(oda_select_iterator_ptr a0, int a1, char** a2, char** a3, int* a4, int* a5) {
    return viaFortran() ? fl_odb_select_iterator_get_bitfield(a0, a1, a2, a3, a4, a5) : odb_select_iterator_get_bitfield(a0, a1, a2, a3, a4, a5);
}
inline int l_odb_select_iterator_get_next_row(oda_select_iterator_ptr a0, int a1, double* a2, int* a3) {
    return viaFortran() ? fl_odb_select_iterator_get_next_row(a0, a1, a2, a3) : odb_select_iterator_get_next_row(a0, a1, a2, a3);
}
inline oda_writer_ptr l_odb_writer_create(const char* a0, int* a1) {
    return viaFortran() ? fl_odb_writer_create(a0, a1) : odb_writer_create(a0, a1);
}
inline int l_odb_writer_destroy(oda_writer_ptr a0) {
    return viaFortran() ? fl_odb_writer_destroy(a0) : odb_writer_destroy(a0);
}
inline oda_write_iterator_ptr l_odb_create_write_iterator(oda_writer_ptr a0, const char* a1, int* a2) {
    return viaFortran() ? fl_odb_create_write_iterator(a0, a1, a2) : odb_create_write_iterator(a0, a1, a2);
}
inline oda_write_iterator_ptr l_odb_create_append_iterator(oda_writer_ptr a0, const char* a1, int* a2) {
    return viaFortran() ? fl_odb_create_append_iterator(a0, a1, a2) : odb_create_append_iterator(a0, a1, a2);
}
inline int l_odb_write_iterator_destroy(oda_write_iterator_ptr a0) {
    return viaFortran() ? fl_odb_write_iterator_destroy(a0) : odb_write_iterator_destroy(a0);
}
inline int l_odb_write_iterator_set_no_of_columns(oda_write_iterator_ptr a0, int a1) {
    return viaFortran() ? fl_odb_write_iterator_set_no_of_columns(a0, a1) : odb_write_iterator_set_no_of_columns(a0, a1);
}
inline int l_odb_write_iterator_set_column(oda_write_iterator_ptr a0, int a1, int a2, const char* a3) {
    return viaFortran() ? fl_odb_write_iterator_set_column(a0, a1, a2, a3) : odb_write_iterator_set_column(a0, a1, a2, a3);
}
inline int l_odb_write_iterator_set_bitfield(oda_write_iterator_ptr a0, int a1, int a2, const char* a3, const char* a4, const char* a5) {
    return viaFortran() ? fl_odb_write_iterator_set_bitfield(a0, a1, a2, a3, a4, a5) : odb_write_iterator_set_bitfield(a0, a1, a2, a3, a4, a5);
}
inline int l_odb_write_iterator_set_missing_value(oda_write_iterator_ptr a0, int a1, double a2) {
    return viaFortran() ? fl_odb_write_iterator_set_missing_value(a0, a1, a2) : odb_write_iterator_set_missing_value(a0, a1, a2);
}
inline int l_odb_write_iterator_set_column_size_doubles(oda_write_iterator_ptr a0, int a1, int a2) {
    return viaFortran() ? fl_odb_write_iterator_set_column_size_doubles(a0, a1, a2) : odb_write_iterator_set_column_size_doubles(a0, a1, a2);
}
inline int l_odb_write_iterator_get_row_buffer_size_doubles(oda_write_iterator_ptr a0, int* a1) {
    return viaFortran() ? fl_odb_write_iterator_get_row_buffer_size_doubles(a0, a1) : odb_write_iterator_get_row_buffer_size_doubles(a0, a1);
}
inline int l_odb_write_iterator_get_column_offset(oda_write_iterator_ptr a0, int a1, int* a2) {
    if (!viaFortran())
        return odb_write_iterator_get_column_offset(a0, a1, a2);
    int r = fl_odb_write_iterator_get_column_offset(a0, a1, a2);  // counts from 1
    if (r == 0)
        --*a2;
    return r;
}
inline int l_odb_write_iterator_set_next_row(oda_write_iterator_ptr a0, double* a1, int a2) {
    return viaFortran() ? fl_odb_write_iterator_set_next_row(a0, a1, a2) : odb_write_iterator_set_next_row(a0, a1, a2);
}
inline int l_odb_write_iterator_write_header(oda_write_iterator_ptr a0) {
    return viaFortran() ? fl_odb_write_iterator_write_header(a0) : odb_write_iterator_write_header(a0);
}

#define odb_count l_odb_count
#define odb_select_create l_odb_select_create
#define odb_select_destroy l_odb_select_destroy
#define odb_read_create l_odb_read_create
#define odb_read_destroy l_odb_read_destroy
#define odb_create_read_iterator l_odb_create_read_iterator
#define odb_read_iterator_destroy l_odb_read_iterator_destroy
#define odb_read_iterator_get_no_of_columns l_odb_read_iterator_get_no_of_columns
#define odb_read_iterator_get_column_type l_odb_read_iterator_get_column_type
#define odb_read_iterator_get_column_name l_odb_read_iterator_get_column_name
#define odb_read_iterator_get_bitfield l_odb_read_iterator_get_bitfield
#define odb_read_iterator_get_next_row l_odb_read_iterator_get_next_row
#define odb_read_iterator_get_missing_value l_odb_read_iterator_get_missing_value
#define odb_read_iterator_get_row_buffer_size_doubles l_odb_read_iterator_get_row_buffer_size_doubles
#define odb_read_iterator_get_column_offset l_odb_read_iterator_get_column_offset
#define odb_read_iterator_get_column_size_doubles l_odb_read_iterator_get_column_size_doubles
#define odb_create_select_iterator l_odb_create_select_iterator
#define odb_create_select_iterator_from_file l_odb_create_select_iterator_from_file
#define odb_select_iterator_destroy l_odb_select_iterator_destroy
#define odb_select_iterator_get_no_of_columns l_odb_select_iterator_get_no_of_columns
#define odb_select_iterator_get_row_buffer_size_doubles l_odb_select_iterator_get_row_buffer_size_doubles
#define odb_select_iterator_get_column_offset l_odb_select_iterator_get_column_offset
#define odb_select_iterator_get_column_size_doubles l_odb_select_iterator_get_column_size_doubles
#define odb_select_iterator_get_missing_value l_odb_select_iterator_get_missing_value
#define odb_select_iterator_get_column_type l_odb_select_iterator_get_column_type
#define odb_select_iterator_get_column_name l_odb_select_iterator_get_column_name
#define odb_select_iterator_get_bitfield l_odb_select_iterator_get_bitfield
#define odb_select_iterator_get_next_row l_odb_select_iterator_get_next_row
#define odb_writer_create l_odb_writer_create
#define odb_writer_destroy l_odb_writer_destroy
#define odb_create_write_iterator l_odb_create_write_iterator
#define odb_create_append_iterator l_odb_create_append_iterator
#define odb_write_iterator_destroy l_odb_write_iterator_destroy
#define odb_write_iterator_set_no_of_columns l_odb_write_iterator_set_no_of_columns
#define odb_write_iterator_set_column l_odb_write_iterator_set_column
#define odb_write_iterator_set_bitfield l_odb_write_iterator_set_bitfield
#define odb_write_iterator_set_missing_value l_odb_write_iterator_set_missing_value
#define odb_write_iterator_set_column_size_doubles l_odb_write_iterator_set_column_size_doubles
#define odb_write_iterator_get_row_buffer_size_doubles l_odb_write_iterator_get_row_buffer_size_doubles
#define odb_write_iterator_get_column_offset l_odb_write_iterator_get_column_offset
#define odb_write_iterator_set_next_row l_odb_write_iterator_set_next_row
#define odb_write_iterator_write_header l_odb_write_iterator_write_header
