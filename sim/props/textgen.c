#include "textgen.h"
static const char *tv[]={"abc","Males, 30-40","two words","x","it's","a|b","say \"hi\"","back\\slash","#not a comment","\xc3\xa9t\xc3\xa9","%s%n","semi;colon","tab\there","12abc","don't 'quote'","- -","0x1F","\xff\xfe"};
static char *value(int numeric,int few){ char b[100]; // few: no more digits than SQLite's own conversion gets right
    if (numeric) switch (w_choose(12)){
        case 0: snprintf(b,100,few?"%.12g":"%.17g",w_unit()*100-50); break; case 1: snprintf(b,100,".%u",1+w_choose(99)); break; case 2: snprintf(b,100,"%de%d",(int)w_choose(200)-100,(int)w_choose(20)-10); break; case 3: snprintf(b,100,"%s",(char*[]){"inf","-inf","INFINITY","Inf"}[w_choose(4)]); break;
        case 4: snprintf(b,100,"%s",(char*[]){"NaN","nan","NAN"}[w_choose(3)]); break; case 5: snprintf(b,100,"-.%u",1+w_choose(9)); break; case 6: snprintf(b,100,"%u",w_choose(1000000000)); break; case 7: snprintf(b,100,"+%u.",w_choose(50)); break; default: snprintf(b,100,"%g",((int)w_choose(401)-200)/8.0); }
    else if (w_choose(15)==0){ int n=1+w_choose(w_choose(4)?48:700); char *l=malloc(n+1); for (int i=0;i<n;i++) l[i]="longfield-"[i%10]; l[n]=0; return l; } // any length, so every edge of a growing buffer
    else snprintf(b,100,"%s",tv[w_choose(18)]);
    return strdup(b); }
static int special(char c,const char *delim){ return c&&(strchr(delim,c)||strchr("\"\\#\n",c)); }
static int spacey(char c){ return c==' '||c=='\t'||c=='\r'; }
static void pad(sbuf *b,const char *delim){ int n=w_choose(8); if (n>2) return; for (;n>0;n--){ char c=" \0\r"[w_choose(9)<7?0:1+w_choose(2)]; if (c==0||!strchr(delim,c)) sb_mem(b,&c,1); } }
static void render(sbuf *b,const char *v,const char *delim){
    int n=strlen(v),hard=0; for (int i=0;i<n;i++) if (special(v[i],delim)||((v[i]==' '||v[i]=='\t')&&strchr(delim,v[i]))) hard=1; if (n&&(spacey(v[0])||spacey(v[n-1]))) hard=1;
    int style=hard?1+w_choose(2):w_choose(5); // 0,3,4 bare; 1 quoted; 2 escaped
    if (!n){ if (w_choose(8)==0) sb_add(b,"\"\""); return; }
    if (style==1){ sb_add(b,"\""); for (int i=0;i<n;i++){ if (v[i]=='"'||v[i]=='\\') sb_add(b,"\\"); sb_mem(b,v+i,1); } sb_add(b,"\""); }
    else if (style==2) for (int i=0;i<n;i++){ if (v[i]=='\n'){ sb_add(b,"\"\n\""); continue; } if (special(v[i],delim)||spacey(v[i])||w_choose(10)==0) sb_add(b,"\\"); sb_mem(b,v+i,1); }
    else sb_mem(b,v,n); }
static void junk(sbuf *b,const char *delim){ // lines that hold no data
    switch (w_choose(12)){ case 0: sb_add(b,"\n"); break; case 1: sb_add(b,"  \n"); break; case 2: sb_add(b,"# a comment, with \"a quote and a \\ in it\n"); break; case 3: sb_add(b,"   #x\n"); break; case 4: if (strchr(delim,'\t')||strchr(delim,' ')) sb_add(b,"\r\n"); else sb_add(b," \t \r\n"); break; case 5: sb_add(b,"#\n\n"); break; default: ; } }
textgen *text_gen(int flags){
    textgen *t=calloc(1,sizeof *t); t->overlong=-1; t->fixed=w_choose(5)==0; t->hascols=w_choose(3)!=0; t->hasrows=w_choose(3)==0;
    t->rows=w_choose(20)?1+w_choose(TG_MAXROWS-1):0; int data=1+w_choose(5); int wide=0; if ((flags&TG_WIDE)&&!t->fixed&&w_choose(200)==0){ wide=1; data=990+w_choose(30); t->rows=1+w_choose(3); }
    t->cols=data+t->hasrows; if (t->fixed) t->hasrows=0, t->cols=data;
    switch (w_choose(8)){ case 0: strcpy(t->delim,","); break; case 1: strcpy(t->delim,"|"); break; case 2: strcpy(t->delim,"\t"); break; case 3: strcpy(t->delim," "); break; case 4: strcpy(t->delim,";:"); break; case 5: strcpy(t->delim,", "); break; default: t->usedefault=1; strcpy(t->delim,"|,\t"); }
    int tight= strpbrk(t->delim," ")!=NULL, canblank; int crlf=w_choose(4)==0&&!t->fixed;
    int w[16]; if (t->fixed){ int e=0; for (int j=0;j<data;j++){ w[j]=3+w_choose(6); e+=w[j]; t->ends[j]=e; } if (w_choose(6)==0) t->ends[data-1]=0; }
    t->cell=calloc(t->rows+1,sizeof *t->cell); t->nf=calloc(t->rows+1,sizeof(int)); t->lineend=calloc(t->rows+2,sizeof(size_t));
    int numeric[16]; for (int j=0;j<16;j++) numeric[j]=w_choose((flags&TG_DB)?3:6)!=0; int wild=w_choose(3);
    sbuf *b=&t->text; sb_mem(b,"",0);
    if (!t->fixed&&w_choose(60)==0){ int n=99000+w_choose(1100); char *big=malloc(n+1); memset(big,'c',n); big[0]='#'; big[n]='\n'; sb_mem(b,big,n+1); free(big); sim_probe("data_across_buffer_boundary"); }
    const char *eol=crlf?"\r\n":"\n";
    if (t->hascols){ t->names=data; t->name=calloc(data,sizeof(char*)); if (!t->fixed) junk(b,t->delim);
        for (int j=0;j<data;j++){ char n[60]; snprintf(n,60,"%s%d",wide?"v":(char*[]){"v","Var","a b","it's","x_","dot."}[wild?w_choose(6):0],j); t->name[j]=strdup(n); }
        if (t->fixed) for (int j=0;j<data;j++){ char n[20]; snprintf(n,20,"%c%d        ",'A'+j,(int)w_choose(10)); n[w[j]]=0; free(t->name[j]); t->name[j]=strdup(n); sb_add(b,"%s",n); }
        else for (int j=0;j<data;j++){ if (j){ char c=t->delim[w_choose(strlen(t->delim))]; sb_mem(b,&c,1); } if (!tight&&!wide) pad(b,t->delim); render(b,t->name[j],t->delim); }
        if (t->rows||w_choose(4)) sb_add(b,"%s",eol); }
    for (int i=0;i<t->rows;i++){
        int nf=t->cols; if (i&&w_choose(8)==0) nf=1+w_choose(t->cols); else if (i&&!t->fixed&&t->overlong<0&&w_choose(150)==0){ nf=t->cols+1+w_choose(3); t->overlong=i; }
        t->nf[i]=nf; t->cell[i]=calloc(nf>t->cols?nf:t->cols,sizeof(char*)); for (int j=nf;j<t->cols;j++) t->cell[i][j]=strdup("");
        if (!t->fixed&&!wide) junk(b,t->delim);
        if (t->fixed){
            for (int j=0;j<nf;j++){ char *v=w_choose(3)?value(1,0):strdup(tv[w_choose(18)]); char f[40]; for (int k=0;k<w[j];k++){ int l=strlen(v); f[k]= k<l&&(unsigned char)v[k]<128&&v[k]!='\n'?v[k]:' '; } f[w[j]]=0; free(v); if (j==nf-1&&w_choose(3)==0){ int k=1+w_choose(w[j]); f[k]=0; } t->cell[i][j]=strdup(f); sb_add(b,"%s",f); }
        } else {
            char seps[2100]; seps[0]=seps[nf]='-'; for (int j=1;j<nf;j++) seps[j]=t->delim[w_choose(strlen(t->delim))];
            for (int j=0;j<nf;j++){
                char sep=j?seps[j]:0; canblank= !spacey(seps[j])&&!spacey(seps[j+1]); // a separator that is white space can't be next to a blank field
                char *v; if (t->hasrows&&j==0){ char n[40]; snprintf(n,40,"%s%d",wide?"r":(char*[]){"r","row ","it's "}[w_choose(3)],i); v=strdup(n); }
                else if (wide) { char n[20]; snprintf(n,20,"%d",j%7); v=w_choose(60)?strdup(n):value(w_choose(2),1); } else if (j>=t->cols) v=strdup("7"); else if (canblank&&nf>1&&w_choose(10)==0) v=strdup(""); else if (w_choose(30)==0&&!(t->hasrows&&!j)) { v=strdup(w_choose(2)?" padded ":"line\nbreak"); } else v=value(numeric[(j)%16],0);
                t->cell[i][j]=v; if (sep) sb_mem(b,&sep,1); if (sep&&(sep=='\t'||sep==' ')&&!wide&&w_choose(8)==0) sb_mem(b,&sep,1);
                if (!tight&&!wide) pad(b,t->delim); render(b,v,t->delim); if (!tight&&!wide&&(*v||canblank)) pad(b,t->delim); }
            if (w_choose(12)==0&&!tight) sb_add(b,"  # the rest is a comment");
        }
        t->lineend[i]=b->n; if (i<t->rows-1||w_choose(3)) sb_add(b,"%s",eol); }
    if (!t->fixed&&b->n&&b->s[b->n-1]=='\n') junk(b,t->delim);
    return t; }
