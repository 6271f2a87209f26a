const fs=require('fs'),vm=require('vm');
const src=fs.readFileSync(process.argv[2],'utf8');
const parts=src.split(/\n(?=\S)/);
function render(v){if(v===null)return'null';switch(typeof v){case'string':return JSON.stringify(v);case'number':return Object.is(v,-0)?'-0':String(v);case'bigint':return v+'n';case'function':return'function';case'object':return'{obj}';default:return String(v)}}
let k=0;
for(const p of src.replace(/\\\n/g,'\u0001').split('\n').filter(x=>x)){
  const code=p.replace(/\u0001/g,'\\\n');
  const tr=[];
  const ctx=vm.createContext({log:(...a)=>{tr.push(['log',...a.map(render)].join(' '));return a[0]},h:x=>{tr.push('h'+x)}});
  let end='end';
  try{vm.runInContext(code,ctx)}catch(e){end='uncaught '+(e&&e.name)}
  console.log('== '+(k++)+'\n'+tr.join('\n')+'\n'+end);
}
