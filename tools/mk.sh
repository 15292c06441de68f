mk () 
{ 
    mkdir -p $1;
    printf '{"property":"%s","needs":"%s","what_it_breaks":"%s"}\n' "$2" "$3" "$4" | python3 -m json.tool > $1/meta.json;
    cat > $1/main.rs
}
